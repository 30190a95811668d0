"""Plumbing shared by the checks: building the code under test, talking to the
adapter, running TLC, collecting evidence, reporting."""
import json
import os
import queue
import random
import re
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = max(2, min(8, os.cpu_count() or 2))


class CheckError(Exception):
    """The check itself could not do its work (no verdict)."""


def go_env(**more):
    e = dict(os.environ)
    e.update(HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOTOOLCHAIN="local", GOFLAGS="-mod=mod",
             GOWORK="off", GOPROXY="off", GOSUMDB="off", GOCACHE="/root/.cache/go-build")
    e.update(more)
    return e


def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True,
                          errors="replace", **kw)


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed, replay=None):
        self.prop, self.tier, self.seed, self.replay = prop, tier, seed, replay
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="kf-%s-" % prop)
        self.states = self.transitions = self.traces = 0
        self.notes = {}
        self.samples = []
        self.violations = []
        self.known = []
        self.assume = []
        self.findings = load_findings(prop)
        self.level = "model_checking"
        self._adapters = []
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)

    @property
    def deep(self):
        return self.tier == "thorough"

    def rng(self, salt):
        return random.Random("%s %s %s" % (self.seed, self.prop, salt))

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def sample(self, x, limit=6):
        if len(self.samples) < limit:
            self.samples.append(x)

    def enough(self):
        """No need to confirm more violations."""
        return len(self.violations) >= 20 or bool(self.violations) and time.time() - self.t0 > 200

    def violation(self, what, **case):
        self.violations.append(dict(what=what, **case))

    # ------------------------------------------------------------ the code under test
    def build(self, race=False):
        """The adapter, built from the current tree of /repo."""
        out = os.path.join(self.work, "adapter-race" if race else "adapter")
        if os.path.exists(out):
            return out
        self.go_build(out, "./adapter", race=race)
        return out

    def go_build(self, out, pkg, race=False, cwd=None, env=None):
        """Module files are copied so that neither /verif nor /repo changes."""
        h = cwd or os.path.join(VERIF, "harness")
        mod = os.path.join(self.work, "mod-%s" % os.path.basename(out))
        os.makedirs(mod, exist_ok=True)
        for f in ("go.mod", "go.sum"):
            shutil.copy(os.path.join(h, f), os.path.join(mod, f))
        cmd = ["go", "build", "-modfile", os.path.join(mod, "go.mod")] + (["-race"] if race else []) + ["-o", out, pkg]
        r = run(cmd, cwd=h, env=go_env(**(env or {})))
        if r.returncode != 0:
            raise CheckError("cannot build %s:\n%s" % (pkg, r.stdout))
        return out

    def adapter(self, race=False, **kw):
        a = Adapter(self.build(race), **kw)
        self._adapters.append(a)
        return a

    def ask(self, reqs, timeout=20, workers=None):
        """Answers to many requests, in order; spread over several adapters."""
        exe = self.build()
        n = min(workers or CORES, max(1, len(reqs) // 50))
        res = [None] * len(reqs)
        errs = []
        hangs = []

        def work(k):
            a = Adapter(exe, timeout=timeout)
            try:
                for i in range(k, len(reqs), n):
                    if len(hangs) >= 6:
                        res[i] = {"skipped": True}
                        continue
                    res[i] = a.ask(reqs[i])
                    if res[i].get("hang"):
                        hangs.append(i)
            except Exception as e:      # noqa
                errs.append(e)
            finally:
                a.close()
        ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if errs:
            raise CheckError("adapter: %r" % errs[0])
        return res

    # ------------------------------------------------------------ TLC
    def tlc(self, module, consts, spec, invariants, env=None, timeout=780, shards=None, heap="3g", properties=(), override=()):
        """Runs TLC, sharded if shards is given; returns the printed lines.  A violated
        invariant of the specification itself is an error of the check."""
        n = shards or 1
        procs = []
        for k in range(n):
            d = os.path.join(self.work, "tlc-%s-%d-%d" % (module, len(os.listdir(self.work)), k))
            os.makedirs(d)
            c = dict(consts)
            if shards:
                c.update(Shard=k, Shards=n)
            with open(os.path.join(d, "G.cfg"), "w") as f:
                f.write("SPECIFICATION %s\n" % spec)
                if invariants:
                    f.write("INVARIANT %s\n" % " ".join(invariants))
                for p in properties:
                    f.write("PROPERTY %s\n" % p)
                if c:
                    f.write("CONSTANTS " + " ".join("%s=%s" % (a, tla(b)) for a, b in c.items()) + "\n")
                for a, b in override:
                    f.write("CONSTANT %s <- %s\n" % (a, b))
                f.write("CHECK_DEADLOCK FALSE\n")
            out = open(os.path.join(d, "out.txt"), "w")
            cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseSerialGC", "-Djava.io.tmpdir=" + d, "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8",
                   "-cp", JARS, "-DTLA-Library=" + SPEC, "tlc2.TLC", "-noGenerateSpecTE", "-workers", "1", "-metadir", os.path.join(d, "st"),
                   "-config", os.path.join(d, "G.cfg"), os.path.join(SPEC, module + ".tla")]
            e = dict(os.environ)
            e.update(env or {})
            procs.append((subprocess.Popen(cmd, cwd=d, stdout=out, stderr=subprocess.STDOUT, env=e), d, out))
        lines, end = [], time.time() + timeout
        bad = None
        for p, d, out in procs:
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                bad = bad or "TLC %s did not finish in %d s" % (module, timeout)
            out.close()
        for p, d, out in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
                continue
            with open(os.path.join(d, "out.txt"), encoding="utf-8", errors="replace") as f:
                text = f.read()
            m = re.findall(r"(\d+) states generated, (\d+) distinct states found, 0 states left", text)
            if p.returncode != 0 or not m or "Error:" in text:
                i = text.find("Error:")
                bad = bad or "TLC %s failed (%s):\n%s" % (module, p.returncode, text[max(0, i):i + 3000] if i >= 0 else text[-3000:])
            else:
                self.transitions += int(m[-1][0])
                self.states += int(m[-1][1])
            lines += text.split("\n")
            shutil.rmtree(d, ignore_errors=True)
        if bad:
            raise CheckError(bad)
        return lines

    def vectors(self, family, stride=1, deep=None, grain="source", shards=None):
        """The sources of a family, with what the specification says about them."""
        lines = self.tlc("KfGen", dict(Grain=grain, Family=family, Deep=self.deep if deep is None else deep,
                                       Stride=stride, Off=self.seed % stride),
                         "GenSpec", ["MachineAgrees", "Guarantees", "ScopeExact", "LayoutFree", "Emit"],
                         shards=shards or CORES)
        out = {}
        for x in lines:
            if x.startswith('"{'):
                v = json.loads(json.loads(x))
                out[v["src"]] = v
        if not out:
            raise CheckError("family %s is empty" % family)
        return [out[k] for k in sorted(out)]

    def meanings(self, srcs, sql, shards=None):
        """What the specification says about given sources; sql: verdicts of the SQL library."""
        if not srcs:
            return []
        n = len(os.listdir(self.work))
        given, asked = (os.path.join(self.work, "%s-%d.json" % (x, n)) for x in ("given", "asked"))
        with open(given, "w", encoding="utf-8") as f:
            for x in srcs:
                f.write(json.dumps(dict(src=x), ensure_ascii=False) + "\n")
        with open(asked, "w", encoding="utf-8") as f:
            json.dump(dict(sql, **{"select 1": "good"}), f, ensure_ascii=False)
        lines = self.tlc("KfGiven", dict(Grain="source", Family="C27", Deep=False, Stride=1000000, Off=1), "GivenSpec", ["MachineAgrees", "Guarantees", "Emit"],
                         env={"KF_GIVEN": given, "KF_SQL": asked}, override=[("SqlLib", "GivenSqlLib")], shards=shards or min(CORES, max(1, len(srcs) // 30)))
        out = {}
        for x in lines:
            if x.startswith('"{'):
                v = json.loads(json.loads(x))
                out[v["src"]] = v
        if len(out) != len(set(srcs)):
            raise CheckError("TLC gave meanings to %d of %d sources" % (len(out), len(set(srcs))))
        return [out[k] for k in sorted(out)]

    # ------------------------------------------------------------ the end
    def finish(self):
        for a in self._adapters:
            a.close()
        shutil.rmtree(self.work, ignore_errors=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or ["none"], seed_used=self.seed)
        cov.update({k: v for k, v in self.notes.items()})
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assume, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if self.violations:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, self.prop + ".json")
            with open(path, "w") as f:
                json.dump(self.violations[:50], f, indent=1, ensure_ascii=False)
            for v in self.violations[:5]:
                print("  " + v["what"][:1500])
            if len(self.violations) > 5:
                print("  ... and %d more" % (len(self.violations) - 5))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("OK property=%s states=%d transitions=%d traces=%d %s wall=%.1fs" % (
            self.prop, self.states, self.transitions, self.traces,
            " ".join("%s=%s" % kv for kv in self.notes.items() if isinstance(kv[1], int)), time.time() - self.t0))
        return 0


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, str):
        return '"%s"' % v
    return str(v)


def load_findings(prop):
    """Lines of known-findings.txt:  finding: property=ID input=<JSON string> <what fails>"""
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) input=(.*)$", line.strip())
            if m and m.group(1) == prop:
                inp, end = json.JSONDecoder().raw_decode(m.group(2))
                out.append((inp, m.group(2)[end:].strip()))
    return out


class Adapter:
    """A running adapter process.  It is restarted after a crash or a hang."""

    def __init__(self, exe, timeout=20, env=None):
        self.exe, self.timeout, self.env = exe, timeout, env
        self.p = None
        self.stderr = ""

    def start(self):
        r, w = os.pipe()
        os.set_inheritable(w, True)
        self.errf = tempfile.TemporaryFile()
        e = dict(os.environ)
        e.update(self.env or {})
        self.p = subprocess.Popen([self.exe, str(w)], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=self.errf,
                                  pass_fds=(w,), env=e)
        os.close(w)
        self.r = r
        self.buf = b""

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
            except OSError:
                pass
            try:
                self.p.wait(5)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
            self.errf.seek(0)
            self.stderr = self.errf.read().decode("utf-8", "replace")
            self.errf.close()
            os.close(self.r)
            self.rc = self.p.returncode
            self.p = None

    def kill(self):
        if self.p:
            self.p.kill()
            self.close()

    def ask(self, q, timeout=None):
        if self.p is None:
            self.start()
        data = (json.dumps(q) + "\n").encode()
        end = time.time() + (timeout or self.timeout)
        wr = threading.Thread(target=self._write, args=(data,)) if len(data) > 30000 else None
        if wr:
            wr.start()
        else:
            self._write(data)
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0 or not select.select([self.r], [], [], left)[0]:
                self.kill()
                return {"hang": True, "ok": False}
            got = os.read(self.r, 1 << 20)
            if not got:
                self.close()
                return {"crash": True, "ok": False, "panic": "exit %s: %s" % (self.rc, self.stderr[-2000:])}
            self.buf += got
        if wr:
            wr.join()
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def _write(self, data):
        try:
            self.p.stdin.write(data)
            self.p.stdin.flush()
        except (OSError, ValueError, AttributeError):
            pass

#!/usr/bin/env python3
"""matrix.py [-j N] [-a] [ID...]   runs the check of each planted change's property (-a: all
checks) on a copy of /repo that has the change, with a copy of /verif that points there."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def slot(jobs, lock, out, everything, k):
    base = tempfile.mkdtemp(prefix="slot%d" % k)
    try:
        repo, ver = base + "/repo", base + "/verif"
        shutil.copytree("/repo", repo, symlinks=True)
        shutil.copytree(VERIF, ver, symlinks=True, ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
        for p in (ver + "/kf/core.py", ver + "/harness/go.mod"):
            s = open(p).read().replace('"/repo"', '"%s"' % repo).replace("=> /repo", "=> " + repo)
            open(p, "w").write(s)
        while True:
            with lock:
                if not jobs:
                    return
                b = jobs.pop(0)
            d = os.path.join(VERIF, "seeded", b)
            if b != "-":
                subprocess.run(["git", "apply", d + "/patch.diff"], cwd=repo, check=True)
            prop = [json.load(open(d + "/meta.json"))["property"]] if b != "-" else []
            if everything:
                prop = os.environ.get("PROPS", " ".join("C%02d" % i for i in range(1, 28))).split()
            for p in prop:
                t = time.time()
                r = subprocess.run(["python3", "run.py", p], cwd=ver, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                hit = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION property=%s " % p)]
                with lock:
                    out.append((b, p, r.returncode, len(hit)))
                    print("%-24s %s rc=%d %-7s %5.0f s  %s" % (b, p, r.returncode, "caught" if hit else "MISSED",
                          time.time() - t, r.stdout.strip().splitlines()[-1][:150] if not hit else ""), flush=True)
                    if r.returncode not in (0, 1):
                        print(r.stdout[-1500:])
            subprocess.run(["git", "checkout", "-q", "--", "."], cwd=repo, check=True)
    finally:
        subprocess.run(["chmod", "-R", "u+rwX", base])
        shutil.rmtree(base)


def main():
    args = sys.argv[1:]
    j = 2
    if "-j" in args:
        i = args.index("-j")
        j = int(args[i + 1])
        del args[i:i + 2]
    everything = "-a" in args
    args = [a for a in args if a != "-a"]
    jobs = args or sorted(os.listdir(VERIF + "/seeded"))
    lock, out = threading.Lock(), []
    ts = [threading.Thread(target=slot, args=(jobs, lock, out, everything, k)) for k in range(min(j, len(jobs)))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    missed = [(b, p) for b, p, rc, hit in out if not hit and not everything]
    print("caught %d of %d" % (len(out) - len(missed), len(out)), "missed:", missed)


main()

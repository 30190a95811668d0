#!/usr/bin/env python3
"""plant.py [ID...]   turns the definitions of bugs.py into seeded/ID, keeping only those that
compile, pass the tests of /repo and have a demonstration that tells the two trees apart."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import bugs  # noqa

ENV = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"],
           GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
           GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOWORK="off", GOPROXY="off")

HEAD = '''#!/bin/bash
# %s
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOWORK=off GOPROXY=off
tmp=$(mktemp -d) || exit 99
trap 'chmod -R u+rwX "$tmp"; rm -rf "$tmp"' EXIT
'''
GO = '''printf '{"Replace": {"%%s": "%%s"}}' "$PWD/zzdemo/main.go" "$here/main.go" > "$tmp/overlay.json"
go build %s -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zzdemo || exit 98
timeout 120 "$tmp/demo"
'''
CLI = '''go build -o "$tmp/kf" . || exit 98
mkdir "$tmp/w"; cd "$tmp/w" || exit 97
'''
WASM = '''GOOS=js GOARCH=wasm go build -o "$tmp/k.wasm" ./wasm || exit 98
node "$here/demo.js" "$(go env GOROOT)/lib/wasm/wasm_exec.js" "$tmp/k.wasm"
'''
PRELUDE = '''package main

import (
	"fmt"
	"os"
%s
	"github.com/kwilteam/kuneiform/kfparser"
)

func fail(format string, args ...any) {
	fmt.Printf(format+"\\n", args...)
	os.Exit(1)
}

// compile gives the JSON of the schema of a source, or its error.
func compile(src string) (string, error) {
	s, err := kfparser.Parse(src)
	if err != nil {
		return "", err
	}
	b, err := s.ToJSON()
	return string(b), err
}

'''
NODE = '''const fs = require("fs");
require(process.argv[2]);
const log = console.log;
console.log = () => {};
async function main(body) {
  const go = new Go();
  const m = await WebAssembly.instantiate(fs.readFileSync(process.argv[3]), go.importObject);
  go.run(m.instance);
  await new Promise((r) => setTimeout(r, 50));
  const bad = body((...a) => globalThis.parseKuneiform(...a));
  if (bad) { log(bad); process.exit(1); }
  process.exit(0);
}
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def passed(tree):
    r = sh(["go", "test", "-json", "-vet=off", "-count=1", "./..."], tree)
    ok = set()
    for line in r.stdout.splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get("Action") == "pass" and d.get("Test"):
            ok.add((d["Package"], d["Test"]))
    return ok, r


def main():
    want = sys.argv[1:]
    scratch = tempfile.mkdtemp(prefix="plant")
    try:
        tree = os.path.join(scratch, "repo")
        shutil.copytree("/repo", tree, symlinks=True)
        base_ok, _ = passed(tree)
        print("tests passing on the unchanged tree:", len(base_ok))
        for b in bugs.BUGS:
            if want and b["id"] not in want:
                continue
            out = os.path.join(VERIF, "seeded", b["id"])
            if not want and os.path.exists(out):
                continue
            print("==", b["id"], end=" ", flush=True)
            problem = plant(b, tree, scratch, base_ok, out)
            sh(["git", "checkout", "-q", "--", "."], tree)
            print(problem or "kept")
            if problem and os.path.exists(out):
                shutil.rmtree(out)
    finally:
        shutil.rmtree(scratch)


def plant(b, tree, scratch, base_ok, out):
    for f, old, new in b["edits"]:
        p = os.path.join(tree, f)
        s = open(p).read()
        if s.count(old) != 1:
            return "edit of %s matches %d times: %r" % (f, s.count(old), old[:60])
        open(p, "w").write(s.replace(old, new))
    sh(["gofmt", "-w"] + sorted({f for f, _, _ in b["edits"]}), tree)
    diff = sh(["git", "diff"], tree).stdout
    touched = original(tree, [f for f, _, _ in b["edits"]])
    if not touched:
        return "changes no line of the original"
    if os.path.exists(out):
        shutil.rmtree(out)
    os.makedirs(out)
    with open(os.path.join(out, "patch.diff"), "w") as f:
        f.write(diff)
    with open(os.path.join(out, "meta.json"), "w") as f:
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
    demo = HEAD % b["breaks"].replace("\n", " ")
    if "go" in b:
        demo += GO % b.get("flags", "")
        imports = "".join('\t"%s"\n' % i for i in b.get("imports", []))
        with open(os.path.join(out, "main.go"), "w") as f:
            f.write(PRELUDE % imports + b["go"].strip() + "\n")
        sh(["gofmt", "-w", os.path.join(out, "main.go")], tree)
    elif "cli" in b:
        demo += CLI + b["cli"].strip() + "\n"
    else:
        demo += WASM
        with open(os.path.join(out, "demo.js"), "w") as f:
            f.write(NODE + b["wasm"].strip() + "\n")
    with open(os.path.join(out, "demo.sh"), "w") as f:
        f.write(demo)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    r = sh(["go", "build", "./..."], tree)
    r2 = sh(["env", "GOOS=js", "GOARCH=wasm", "go", "build", "-o", "/dev/null", "./wasm"], tree)
    if r.returncode or r2.returncode:
        return "does not build: " + r.stdout + r2.stdout
    ok, r = passed(tree)
    if base_ok - ok:
        return "fails tests: %s" % sorted(base_ok - ok)[:4]
    there = sh(["bash", os.path.join(out, "demo.sh")], tree)
    sh(["git", "checkout", "-q", "--", "."], tree)
    without = sh(["bash", os.path.join(out, "demo.sh")], tree)
    if without.returncode != 0:
        return "demo fails on the unchanged tree: " + without.stdout[-400:]
    if there.returncode == 0:
        return "demo passes with the change"
    if there.returncode >= 97:
        return "demo broken: " + there.stdout[-400:]
    return None


def original(tree, files):
    """the number of removed lines that come from the original repository"""
    base = sh(["git", "rev-list", "--max-parents=0", "HEAD"], tree).stdout.strip()
    n = 0
    for f in set(files):
        blame = sh(["git", "blame", "-s", "-l", "--root", "HEAD", "--", f], tree).stdout.splitlines()
        line = 0
        for d in sh(["git", "diff", "-U0", "--", f], tree).stdout.splitlines():
            if d.startswith("@@"):
                line = int(d.split()[1][1:].split(",")[0])
            elif d.startswith("-") and not d.startswith("---"):
                if blame[line - 1].startswith(base):
                    n += 1
                line += 1
    return n


main()

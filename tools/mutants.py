#!/usr/bin/env python3
"""Mutation testing of the checks: python3 mutants.py OUT.jsonl [FILE...] tries every single-point change, keeps
those that build and pass the tests, runs all checks and records which raise an alarm."""
import json, os, subprocess, shutil, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["radolan.go","header.go","data.go","littleendian.go","singlebyte.go","runlength.go","catalog.go","conversion.go","projection.go","projection_sphere.go","projection_wgs84.go","radolan2png/radolan2png.go","radolan2png/vis/vis.go"]
def run(m):
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        root = d + "/src/gitlab.cs.fau.de/since/radolan"
        os.makedirs(root)
        subprocess.run("git -C /repo archive HEAD | tar x -C " + root, shell=True, check=True)
        p = root + "/" + m["file"]
        s = open(p, "rb").read()
        s = s[:m["off"]] + m["new"].encode() + s[m["end"]:]
        open(p, "wb").write(s)
        env = dict(os.environ, GO111MODULE="off", GOPATH=d, GOCACHE="/tmp/benign-cache", GOENV="off", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-buildvcs=false", GOWORK="off", CGO_ENABLED="0", TZ="Europe/Berlin", PWD=root)
        r = subprocess.run("go build ./... ", shell=True, cwd=root, env=env, capture_output=True, text=True,errors="replace", timeout=300)
        if r.returncode:
            m["state"] = "nobuild"; return m
        try:
            r = subprocess.run("ulimit -v 8000000; go test -timeout 30s -vet=off -count=1 -skip TestGrid ./...", shell=True, cwd=root, env=env, capture_output=True, text=True,errors="replace", timeout=120)
        except subprocess.TimeoutExpired:
            m["state"] = "killed"; return m
        if r.returncode:
            m["state"] = "killed"; return m
        env = dict(os.environ, VERIF_REPO=root, VERIF_DIR=d)
        try:
            r = subprocess.run("ulimit -v 12000000; timeout 600 " + os.environ.get("RADOCHECK", V + "/bin/radocheck") + " -p all", shell=True, cwd=V, env=env, capture_output=True, text=True,errors="replace")
        except Exception as e:
            m["state"] = "error " + str(e); return m
        m["state"] = "rc%d" % r.returncode
        m["caught"] = sorted({l.split("property=")[1].split()[0] for l in r.stdout.splitlines() if l.startswith("VIOLATION")})
        if r.returncode not in (0, 1): m["err"] = r.stderr[-600:]
        return m
    finally:
        shutil.rmtree(d)
def main():
    out = sys.argv[1]
    files = sys.argv[2:] or FILES
    subprocess.run(["go", "build", "-o", "/tmp/mutate", "main.go"], cwd=V + "/tools/mutate", check=True, env=dict(os.environ, GO111MODULE="off"))
    ms = []
    for f in files:
        o = subprocess.run(["/tmp/mutate", f], cwd="/repo", capture_output=True, text=True,errors="replace", check=True).stdout
        ms += [json.loads(l) for l in o.splitlines()]
    print(len(ms), "mutants", flush=True)
    n = 0
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "7"))) as ex, open(out, "w") as f:
        for m in ex.map(run, ms):
            f.write(json.dumps(m) + "\n"); f.flush()
            n += 1
            if n % 100 == 0: print(n, flush=True)
main()

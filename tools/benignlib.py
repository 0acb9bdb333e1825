"""Runs the checks on behaviour-preserving edits (tools/benign.py): none may raise an alarm."""
import os, subprocess, shutil, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = {}
def benign(id, *edits):
    assert id not in ALL, id
    ALL[id] = edits
def run(id):
    d = tempfile.mkdtemp(prefix="benign-")
    try:
        root = d + "/src/gitlab.cs.fau.de/since/radolan"
        os.makedirs(root)
        subprocess.run("git -C /repo archive HEAD | tar x -C " + root, shell=True, check=True)
        for e in ALL[id]:
            f, old, new = e[:3]
            p = root + "/" + f
            s = open(p).read() if os.path.exists(p) else ""
            if old is None:
                s = s + new
            else:
                if old not in s: # written against the source without its comment lines
                    s = "".join(l for l in s.splitlines(True) if not l.lstrip().startswith("//"))
                n = s.count(old)
                if n == 0 or (n > 1 and len(e) < 4):
                    return id, "BAD EDIT %s: %d x %r" % (f, n, old[:60])
                s = s.replace(old, new)
            open(p, "w").write(s)
        env = dict(os.environ, GO111MODULE="off", GOPATH=d, GOCACHE="/tmp/benign-cache", GOENV="off", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-buildvcs=false", GOWORK="off", CGO_ENABLED="0", TZ="Europe/Berlin", PWD=root)
        r = subprocess.run("go build ./... && go test -vet=off -count=1 -skip TestGrid ./...", shell=True, cwd=root, env=env, capture_output=True, text=True)
        out = ""
        if r.returncode != 0:
            return id, "DOES NOT BUILD OR PASS: " + (r.stdout + r.stderr)[-400:]
        if os.environ.get("NOCHECK"):
            return id, ""
        ps = os.environ.get("PROPS", "all")
        env = dict(os.environ, VERIF_REPO=root, VERIF_DIR=d)
        r = subprocess.run(["timeout", "900", V + "/bin/radocheck", "-p", ps], cwd=V, env=env, capture_output=True, text=True)
        bad = [l[:int(os.environ.get("COLS", "600"))] for l in r.stdout.splitlines() + r.stderr.splitlines() if "obligations, " not in l or l.split()[1] != l.split()[3]]
        if r.returncode not in (0, 1):
            out = "rc=%d\n" % r.returncode
        return id, out + "\n".join(bad[:int(os.environ.get("LINES_MAX", "12"))])
    finally:
        shutil.rmtree(d)
def main():
    ids = sys.argv[1:] or list(ALL)
    ids = [i for i in ALL if any(i == a or i.startswith(a) for a in ids)]
    quiet = 0
    with ThreadPoolExecutor(7) as ex:
        for id, out in ex.map(run, ids):
            if out:
                print("==== %s\n%s" % (id, out), flush=True)
            else:
                quiet += 1
    print("%d of %d quiet" % (quiet, len(ids)))

"""Writes /verif/seeded/<id>/ from a list of planted changes (see tools/seeds.py)."""
import json, os, subprocess, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''package %s

import (
%s
)

'''
MK = '''
// mk builds a composite: product, header fields and data of the declared length dl.
func mk(prod, fields string, data []byte, dl int) []byte {
	n := 17 + 2 + 7 + len(fields) + 1
	return append([]byte(fmt.Sprintf("%s262115100000616BY%7d%s\\x03", prod, n+dl, fields)), data...)
}

func seq(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i)
	}
	return b
}

var _ = fmt.Sprint
'''
SH = '''#!/bin/bash
# The demonstration: an in-package test, added through an overlay.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
. /opt/vp/env.sh
echo '{"Replace":{"'"$pkg"'/%szz_demo_test.go":"'"$D"'/demo_test.go"}}' > "$T/overlay.json"
export DEMO_TMP="$T"%s
timeout 120 go test -overlay "$T/overlay.json" -vet=off -count=1 -timeout 60s -run 'TestDemo' ./%s
'''
def seed(id, prop, edits, needs, breaks, test, imports=("testing",), sub="", env="", mk=True):
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    subprocess.run(["git","-C","/repo","checkout","-q","--","."],check=True)
    for f, old, new in edits:
        p = "/repo/"+f
        s = open(p).read()
        assert s.count(old) >= 1, (id, f, old, s.count(old))
        assert s.count(old) == 1, (id, "ambiguous", s.count(old))
        open(p,"w").write(s.replace(old,new))
    subprocess.run(["gofmt","-w"]+["/repo/"+f for f,_,_ in edits],check=False)
    diff = subprocess.run(["git","-C","/repo","diff"],check=True,capture_output=True,text=True).stdout
    subprocess.run(["git","-C","/repo","checkout","-q","--","."],check=True)
    open(d+"/patch.diff","w").write(diff)
    imports = sorted(set(imports)|{"testing"}|({"fmt"} if mk else set()))
    pkgname = {"":"radolan","radolan2png/":"main","radolan2png/vis/":"vis"}[sub]
    body = PRE % (pkgname, "\n".join('\t"%s"'%i for i in imports)) + test.strip("\n") + "\n" + (MK if mk else "")
    open(d+"/demo_test.go","w").write(body)
    subprocess.run(["gofmt","-w",d+"/demo_test.go"],check=False)
    open(d+"/demo.sh","w").write(SH % (sub, env, sub))
    os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)

"""Further bugs, each with the property it breaks: which checks report them?
No demonstrations: they only show where the checks are blind."""
import os, sys, subprocess, tempfile, shutil
import benignlib as B
from concurrent.futures import ThreadPoolExecutor
BUGS = {}
def bug(id, prop, *edits):
    assert id not in BUGS, id
    BUGS[id] = prop
    B.ALL[id] = edits
def run(id):
    id, out = B.run(id)
    if out.startswith("DOES NOT") or out.startswith("BAD EDIT"):
        return id, out, ""
    props = sorted({l.split("property=")[1].split()[0] for l in out.splitlines() if "property=" in l})
    return id, "", (props, out)
def main():
    ids = [i for i in BUGS if not sys.argv[1:] or any(i.startswith(a) for a in sys.argv[1:])]
    os.environ["LINES_MAX"] = "400"
    own = 0
    with ThreadPoolExecutor(7) as ex:
        for id, broken, r in ex.map(run, ids):
            if broken:
                print("%-28s %s" % (id, broken)); continue
            props, out = r
            want = BUGS[id].split("|")
            if any(w in props for w in want):
                own += 1
                if os.environ.get("ALL"): print("%-28s ok   %s: %s" % (id, BUGS[id], " ".join(props)))
            else:
                print("%-28s MISS %s; reported by: %s" % (id, BUGS[id], " ".join(props)))
    print("%d of %d reported by their own check" % (own, len(ids)))
from bugs1 import *  # noqa
from bugs2 import *  # noqa
from bugs3 import *  # noqa
from bugs4 import *  # noqa
from bugs5 import *  # noqa
from bugs6 import *  # noqa
if __name__ == "__main__":
    main()

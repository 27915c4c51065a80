#!/usr/bin/env python3
"""refactor.py run [ids]: applies behaviour-preserving edits (tools/refactors.py) to a scratch copy and runs the check engine there;
every alarm is a false one.  refactor.py test [ids]: the repository's own tests on each edit."""
import os, shutil, subprocess, sys, time
V = "/verif"
sys.path.insert(0, V + "/tools")
sys.path.insert(0, V)
import seed
from refactors import R

def prep(i):
    d = "/tmp/seedw/r-%s" % i
    seed.copy(d)
    for f, a, b in R[i]:
        t = open(d + "/" + f).read()
        assert a in t, (i, f, a)
        open(d + "/" + f, "w").write(t.replace(a, b))
    return d

if __name__ == "__main__":
    for i in sys.argv[2:] or sorted(R):
        d = prep(i)
        try:
            if sys.argv[1] == "test":
                rc, o = seed.sh("cargo test --workspace --all-features --no-fail-fast --offline 2>&1 | grep -E '^test result|FAILED|^error|panicked'", d, seed.env())
                ok = o.count("test result: ok") >= 5 and "FAILED" not in o and "error" not in o.replace('errors','')
                print(i, "tests ok" if ok else "TESTS: " + o[-900:], flush=True)
            else:
                e = dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick")
                for p in os.environ.get("PROPS", "C01 D13").split():
                    rc, o = seed.sh("python3 %s/engine/check.py %s --any" % (V, p), V, e)
                    print(i, p, rc, o.strip()[-1500:], flush=True)
        finally:
            shutil.rmtree(d)

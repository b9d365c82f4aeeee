"""Development aid: writes /verif/seeded/<id>/ from a description (file, old text, new text, demo program)."""
import json, os, shutil, subprocess, sys
SH = '''#!/bin/bash
# exit 0 when the property holds for this input, 1 when it does not
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/rfdemo.XXXXXX) || exit 2
export PYTHONPATH="$PWD" HOME="$W" TMPDIR="$W" MPLBACKEND=Agg MPLCONFIGDIR="$W" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
cd "$W" && timeout 250 /opt/venv/bin/python "$D/demo.py" "$W"
rc=$?
rm -rf -- "$W"
exit $rc
'''
HEAD = '''import sys, numpy as np
W = sys.argv[1]          # scratch folder
rng = np.random.default_rng(1); np.random.seed(1)
import random; random.seed(1)


class Mat:
    """A material with constant or given optical constants."""
    def __init__(self, n, k=0.0, name=None):
        self._n, self._k, self.name = n, k, name or "m%s_%s" % (n, k)
        self.material_string = self.name
    def __str__(self):
        return self.name
    def n(self, wl): return (self._n(np.asarray(wl, float)) if callable(self._n) else self._n * np.ones_like(np.asarray(wl, float)))
    def k(self, wl): return (self._k(np.asarray(wl, float)) if callable(self._k) else self._k * np.ones_like(np.asarray(wl, float)))
    def alpha(self, wl): return 4 * np.pi * self.k(wl) / np.asarray(wl, float)
    def nk(self, wl): return self.n(wl) + 1j * self.k(wl)


def done(ok, what):
    print(("holds: " if ok else "BROKEN: ") + what)
    sys.exit(0 if ok else 1)


'''
def bug(id, prop, edits, demo, needs, breaks):
    d = "/verif/seeded/" + id
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    c = "/tmp/mk_" + id
    shutil.rmtree(c, ignore_errors=True)
    subprocess.check_call("git -C /repo worktree prune; git clone -q /repo " + c, shell=True)
    for f, old, new in edits:
        p = c + "/rayflare/" + f
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", c, "diff"], text=True))
    shutil.rmtree(c)
    open(d + "/demo.sh", "w").write(SH); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(HEAD + demo.strip() + "\n")
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)

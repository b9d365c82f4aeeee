"""Development aid: confirms planted bugs (patch applies, builds, tests pass, demo 0/nonzero) and runs checks against them, in a mount namespace where the scratch copy is /repo."""
import json, os, shutil, subprocess, sys
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def inns(copy, cmd, timeout=1500):
    return sh("unshare -Urm bash -c 'mount --bind %s /repo && %s'" % (copy, cmd), timeout=timeout)
notests = "--no-tests" in sys.argv
allchecks = "--all" in sys.argv
for b in [a for a in sys.argv[1:] if not a.startswith("--")]:
    d = "/verif/seeded/" + b
    m = json.load(open(d + "/meta.json"))
    c = "/tmp/tb_" + b
    shutil.rmtree(c, ignore_errors=True)
    sh("cp -a /repo " + c + " && git -C " + c + " checkout -q -- .")
    dd = "/tmp/tbd_" + b
    shutil.rmtree(dd, ignore_errors=True)
    shutil.copytree(d, dd)
    out = [b, m["property"]]
    r = sh("git -C %s apply %s/patch.diff" % (c, d))
    if r.returncode:
        print(b, "PATCH FAILS", r.stderr); continue
    r = sh("cd /repo && bash %s/demo.sh" % dd, timeout=300)
    out.append("demo clean %d" % r.returncode)
    if r.returncode: print(r.stdout[-800:], r.stderr[-800:])
    r = inns(c, "cd /repo && bash %s/demo.sh" % dd, 300)
    out.append("demo patched %d" % r.returncode)
    print(b, "demo says:", (r.stdout.strip().splitlines() or [""])[-1][:200], (r.stderr.strip().splitlines() or [""])[-1][:200])
    if not notests:
        r = inns(c, "bash /opt/vp/build.sh")
        out.append("build %d" % r.returncode)
        r = inns(c, "bash /opt/vp/test.sh /tmp/tb_out_%s.json" % b)
        try:
            out.append("failed: %s" % json.load(open("/tmp/tb_out_%s.json" % b))["failed"])
        except Exception as e: out.append(repr(e))
        out.append("tests: " + (r.stdout.strip().splitlines() or [r.stderr[-200:]])[-1])
    for p in ([m["property"]] if not allchecks else ["P%02d" % i for i in range(1, 27) if os.path.exists("/verif/checks/P%02d.py" % i)]):
        r = inns(c, "cd /verif && VERIF_SEED=1 bash run.sh %s" % p)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        out.append("%s rc=%d" % (p, r.returncode))
        if v and p == m["property"]:
            try:
                j = json.load(open(v[0].split("replay=")[1])); out.append(j["oracle"] + ": " + j["msg"][:120])
            except Exception as e: out.append(repr(e))
    print(" | ".join(out), flush=True)
    shutil.rmtree(c, ignore_errors=True); shutil.rmtree(dd, ignore_errors=True)

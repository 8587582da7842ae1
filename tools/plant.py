#!/usr/bin/env python3
"""Plants the changes under seeded/ in /repo, one at a time, and says what notices them.
plant.py full ID...   build, stable tests, demo on both trees, check
plant.py check ID...  only the check of the bug's property (or --prop P)   [no ID: all]"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests():
    sh("bash /opt/vp/test.sh /tmp/plant-out.json")
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("passed") or base.get("stable") or base
    if isinstance(stable, dict):
        stable = stable.get("tests") or list(stable)
    got = set(json.load(open("/tmp/plant-out.json"))["passed"])
    return [t for t in stable if t not in got]


def main():
    mode, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("--")]
    prop = next((a[7:] for a in sys.argv if a.startswith("--prop=")), None)
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    ids = ids or sorted(os.listdir(V + "/seeded"))
    for i in ids:
        d = os.path.join(V, "seeded", i)
        meta = json.load(open(d + "/meta.json"))
        assert not sh("git -C /repo status --porcelain").stdout.strip()
        if mode == "full":
            sh("bash /opt/vp/build.sh")
            p = sh("bash %s/demo.sh" % d, cwd=R, timeout=300)
            print(i, "demo on the clean tree:", p.returncode, "" if p.returncode == 0 and "error:" not in p.stdout else p.stdout[-1500:])
        a = sh("git -C /repo apply %s/patch.diff" % d)
        if a.returncode:
            print(i, "DOES NOT APPLY", a.stdout)
            continue
        try:
            if mode == "full":
                b = sh("bash /opt/vp/build.sh")
                if b.returncode:
                    print(i, "DOES NOT BUILD", b.stdout[-3000:])
                    continue
                p = sh("bash %s/demo.sh" % d, cwd=R, timeout=300)
                print(i, "demo with the change:", p.returncode, p.stdout.strip()[-400:])
                print(i, "stable tests lost:", tests())
            for pr in ([prop] if prop else [meta["property"]]):
                c = sh("python3 run.py %s %s" % (pr, tier), cwd=V)
                lines = c.stdout.strip().splitlines()
                key = [l.strip() for l in lines if l.strip().startswith("key=")]
                print(i, pr, "CAUGHT" if c.returncode == 1 and "VIOLATION property=" + pr in c.stdout else "MISSED rc=%d" % c.returncode,
                      key[:3] or (lines[-3:] if lines else ""), flush=True)
        finally:
            sh("git -C /repo checkout -- .")
    if mode == "full":
        sh("bash /opt/vp/build.sh")


main()

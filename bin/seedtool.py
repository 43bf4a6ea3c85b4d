#!/usr/bin/env python3
"""Authoring aid for /verif/seeded (no check uses it).
  seedtool.py confirm ID...   patch applies, builds, 138 tests pass, demo.sh passes without and fails with it
  seedtool.py check ID...     run the property's quick check with the patch applied (in /repo, undone afterwards)"""
import json, os, subprocess, sys, shutil, tempfile
S = "/verif/seeded"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def demo(i):
    t = tempfile.mkdtemp()
    d = os.path.join(t, "x")
    shutil.copytree(os.path.join(S, i), d)
    for f in ("patch.diff", "meta.json"):
        os.remove(os.path.join(d, f))
    r = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
    shutil.rmtree(t)
    return r


def clean():
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo not clean"


def main():
    mode, ids = sys.argv[1], sys.argv[2:]
    if ids == ["all"]:
        ids = sorted(os.listdir(S))
    for i in ids:
        clean()
        p = os.path.join(S, i, "patch.diff")
        meta = json.load(open(os.path.join(S, i, "meta.json")))
        if mode == "confirm":
            r0 = demo(i)
            a = sh("git -C /repo apply " + p)
            if a.returncode:
                print(i, "DOES NOT APPLY", a.stdout.decode()); continue
            try:
                b = sh("bash /opt/vp/build.sh")
                t = sh("bash /opt/vp/test.sh /tmp/seed.json")
                n = len(json.load(open("/tmp/seed.json"))["passed"])
                r1 = demo(i)
            finally:
                sh("git -C /repo checkout -- .")
            ok = r0.returncode == 0 and r1.returncode != 0 and b.returncode == 0 and n == 138
            print(i, "OK" if ok else "BAD", "demo clean=%d patched=%d build=%d tests=%d" % (r0.returncode, r1.returncode, b.returncode, n))
            if not ok:
                print(r0.stdout.decode()[-600:]); print(r1.stdout.decode()[-600:]); print(t.stdout.decode()[-400:])
        else:
            props = [meta["property"]] if mode == "check" else mode.split(",")
            for prop in props:
                sh("git -C /repo apply " + p)
                try:
                    r = sh("python3 bin/check.py " + prop, cwd="/verif", env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                finally:
                    sh("git -C /repo checkout -- .")
                out = r.stdout.decode().strip().splitlines()
                print(i, prop, "CAUGHT" if r.returncode == 1 else "MISSED rc=%d" % r.returncode, "|", (out[-2] if len(out) > 1 else "")[:200], flush=True)


main()

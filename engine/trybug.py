#!/usr/bin/env python3
"""Tries a planted bug: trybug.py <id> [check...]. Applies it to /repo and undoes it."""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
name = sys.argv[1]
directory = os.path.join(VERIF, "seeded", name)
meta = json.load(open(os.path.join(directory, "meta.json")))
checks = sys.argv[2:] or [meta["property"]]


def sh(command, **options):
    return subprocess.run(command, shell=True, cwd=options.get("cwd", REPO), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


assert not sh("git status --porcelain").stdout.strip(), "/repo is not clean"
print("demo on the unchanged tree:", sh(f"bash {directory}/demo.sh").returncode)
try:
    assert sh(f"git apply {directory}/patch.diff").returncode == 0, "does not apply"
    result = sh("bash /opt/vp/build.sh")
    print("build:", result.returncode)
    if result.returncode:
        print(result.stdout[-2000:])
    result = sh("bash /opt/vp/test.sh /tmp/seed-tests.json")
    got = json.load(open("/tmp/seed-tests.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base.get("stable", base.get("passed", [])))
    missing = stable - set(got.get("passed", []))
    print("tests:", len(got.get("passed", [])), "passed; stable tests broken:", sorted(missing)[:5])
    result = sh(f"bash {directory}/demo.sh")
    print("demo with the change:", result.returncode, result.stdout[-300:])
    for check in checks:
        result = sh(f"python3 engine/check.py {check}", cwd=VERIF)
        lines = result.stdout.splitlines()
        print(check, result.returncode, lines[-1])
        for line in lines:
            if " failed " in line[:12] or " undecided" in line[:12]:
                print("   ", line)
finally:
    sh(f"git apply -R {directory}/patch.diff || git checkout -- .")
    sh("git checkout -- .")

#!/usr/bin/env python3
"""Build /repo and run its tests; exit 0 when every stable test passes."""
import json, subprocess, sys, tempfile, os
def main():
    with tempfile.TemporaryDirectory() as d:
        o = os.path.join(d, "o.json")
        r = subprocess.run(["bash", "/opt/vp/test.sh", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        passed = set(json.load(open(o))["passed"])
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    missing = [t for t in stable if t not in passed]
    print("stable %d, passed %d, missing %s" % (len(stable), len(stable) - len(missing), missing))
    if missing and not passed:
        print(r.stdout.decode(errors="replace")[-2000:])
    return 1 if missing else 0
if __name__ == "__main__":
    sys.exit(main())

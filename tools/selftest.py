#!/usr/bin/env python3
"""Determinism of the simulator itself: the same seeds give the same event logs
whatever the number of workers and the hash seed of Python.

selftest.py [cases [property ...]]
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
CHECK = os.path.join(os.path.dirname(HERE), "sim", "check.py")


def shards(pid, n, w, hashseed):
    ps = [subprocess.Popen([sys.executable, CHECK, pid, "--worker", "11",
                            str(i), str(w), str(n), "600"],
                           stdout=subprocess.PIPE,
                           env=dict(os.environ, PYTHONHASHSEED=hashseed))
          for i in range(w)]
    traces, cases = set(), 0
    for p in ps:
        d = json.loads(p.communicate()[0])
        assert not d["errors"], d["errors"][0]
        assert not d["found"], d["found"]["msg"]
        traces |= set(d["stats"]["traces"])
        cases += d["stats"]["cases"]
    return cases, traces


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 60
    props = sys.argv[2:] or ["C%02d" % i for i in range(1, 20)]
    bad = 0
    for p in props:
        a, b = shards(p, n, 3, "1"), shards(p, n, 8, "2")
        same = a == b
        bad += not same
        print("%s: %d cases, %d event logs, %s" % (
            p, a[0], len(a[1]), "identical" if same else
            "DIFFERENT (%d)" % len(a[1] ^ b[1])), flush=True)
    return bad != 0


if __name__ == "__main__":
    sys.exit(main())

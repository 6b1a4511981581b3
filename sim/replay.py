"""replay.py FILE: reproduces a violation exactly.

Exit 1 if the recorded violation happens again with the recorded event hash,
0 if the property holds on that case now.
"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import base
import check
import run as R


def main():
    raw = sys.argv[1] == "--raw"
    d = json.load(open(sys.argv[2 if raw else 1]))
    prop = check.load()[d["property"]]()
    check.prepare(prop)
    cls, msg, crc, _ = check.evaluate(prop, d["case"])
    if raw:
        json.dump({"class": cls, "crc": crc, "msg": msg}, sys.stdout)
        return 0
    if not raw:
        env = base.Env()
        env.keep = True
        prop.check(d["case"], env)
        for t in env.traces:
            print("--- run")
            print("\n".join(t.trace))
    R.drop_zygotes()
    if cls is None:
        print("no violation (recorded: %s)" % d["message"])
        return 0
    print(msg)
    print("event hash %08x, recorded %08x: %s" % (
        crc, d["crc"], "identical" if crc == d["crc"] else
        "different (the code changed)"))
    print("VIOLATION property=%s replay=%s" % (d["property"],
                                               os.path.abspath(sys.argv[1])))
    return 1


if __name__ == "__main__":
    sys.exit(main())

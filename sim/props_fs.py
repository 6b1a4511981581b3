"""In place formatting: atomicity, truthfulness, attributes, footprint."""
import errno as E
import re

from base import *


def clean_abs(case, t):
    return t["path"]


def inplace_flags(r):
    return ["-i"] + (["-s"] if r.chance(1, 5) else [])


def dedup(ts):
    seen = set()
    out = []
    for t in ts:
        if t["path"] not in seen:
            seen.add(t["path"])
            out.append(t)
    return out


FSOPS = ("MKSTEMP", "WRITE", "FSTAT", "FCHMOD", "FCHOWN", "FSYNC", "FDATASYNC",
         "RENAME", "CLOSE", "UNLINK", "OPEN", "READ", "UMASK")


class C01(Prop):
    """Atomic replacement."""
    id = "C01"
    quick = 12000
    thorough = 240000

    def case(self, r, env):
        m = Maker(r)
        n = r.weighted([(5, 1), (3, 2), (1, 4)])
        ts = [r.weighted([(5, m.known), (3, m.boundary),
                          (2, lambda: m.corpus(lambda n: not n.startswith("error"))),
                          (1, m.torn)])() for _ in range(n)]
        if r.chance(1, 10):
            # A symbolic link as target.
            t = m.known()
            tgt = t["path"] + ".real"
            ts.append(dict(t, link=tgt, target=tgt))
        c = {"flags": inplace_flags(r), "targets": dedup(ts), "files": {},
             "knobs": {"rng": r.below(1 << 40)}}
        for t in ts:
            if t.get("link"):
                c["files"][t["link"]] = {"data": t["src"]}
        if r.chance(1, 3):
            c["knobs"]["wchunk"] = chunks(r)
        if r.chance(1, 8):
            c["knobs"]["disk_free"] = r.range(0, 6000)
        if r.chance(1, 6):
            c["proc"] = {"umask": r.pick([0, 0o77, 0o777])}
        if r.chance(1, 5):
            hardlinks(r, c)
        log = env.run(scenario(c)).oplog
        c["faults"] = []
        for _ in range(r.weighted([(1, 0), (8, 1), (3, 2), (1, 3)])):
            f = pick_fault(r, log, ["kill", "killafter", "killafter", "power",
                                    "power", "power", "errno", "short", "lose"],
                           lambda x: x[1] in FSOPS or r.chance(1, 6))
            if f:
                c["faults"].append(f)
        return c

    def judge(self, case, env):
        allowed = {}
        for t in case["targets"]:
            a = {t["src"].encode("latin-1")}
            ok, want = expected(env, case, t)
            if ok:
                a.add(want)
            allowed[t["path"]] = a

        def inv(k, sim):
            for path, a in allowed.items():
                n = follow(k, path)
                if n is None:
                    return "missing: %s does not exist at step %d" % (
                        path, k.step)
                if bytes(n.data) not in a:
                    return "torn: %s holds neither the original nor the " \
                        "formatted text at step %d: %s" % (
                            path, k.step, short(n.data))
            return None
        r = env.run(scenario(case), inv)
        if r.violation is None and not r.k.powered:
            env.probe("power lost")
        if r.violation is None:
            # Data written long ago may still fail to reach the disk.
            for n in r.k.files().values():
                if n.kind == "f" and n.wberr:
                    r.k.writeback_failed(n)
            r.violation = inv(r.k, None)
        if r.violation:
            cls, msg = r.violation.split(": ", 1)
            bad(cls, msg)
        for t in case["targets"]:
            n = follow(r.k, t["path"])
            if bytes(n.data) != t["src"].encode("latin-1"):
                env.probe("replaced")


class C02(Prop):
    """Exit status tells the truth; failing files are independent."""
    id = "C02"
    quick = 6000
    thorough = 120000

    def case(self, r, env):
        m = Maker(r)
        n = r.weighted([(2, 1), (4, 2), (4, 3), (2, 6)])
        ts = dedup([m.any() for _ in range(n)])
        if r.chance(1, 60):
            ts = crowd(r, m, ts, r.pick(["missing", "missing", "error"]))
        c = {"flags": inplace_flags(r), "targets": ts,
             "knobs": {"rng": r.below(1 << 40)}}
        if r.chance(1, 8):
            hardlinks(r, c)
        if r.chance(1, 3):
            c["knobs"]["wchunk"] = chunks(r)
        if r.chance(1, 3):
            c["knobs"]["rchunk"] = chunks(r)
        if r.chance(1, 8):
            c["knobs"]["disk_free"] = r.range(0, 6000)
        if r.chance(1, 12):
            c["knobs"]["fdlimit"] = r.range(3, 6)
        log = env.run(scenario(c)).oplog
        c["faults"] = []
        for _ in range(0 if len(ts) > 100 else
                       r.weighted([(2, 0), (8, 1), (3, 2), (1, 4)])):
            f = pick_fault(r, log, ["errno", "errno", "errno", "short", "lose"],
                           lambda x: x[1] in FSOPS or r.chance(1, 6))
            if f:
                c["faults"].append(f)
        return c

    def judge(self, case, env):
        exp = [expected(env, case, t) for t in case["targets"]]
        r = env.run(scenario(case))
        no_crash(r)
        code = r.code()
        if code is None:
            bad("signal", "terminated by signal %d" % (r.status() & 0x7f))
        # Late write-back failures: an exit of zero is a promise.
        for n in r.k.files().values():
            if n.kind == "f" and n.wberr:
                r.k.writeback_failed(n)
        notdone = []
        for t, (ok, want) in zip(case["targets"], exp):
            if t["kind"] in ("missing", "dir"):
                notdone.append(t["arg"])
                continue
            n = follow(r.k, t["path"])
            data = bytes(n.data) if n else None
            src = t["src"].encode("latin-1")
            if not ok:
                notdone.append(t["arg"])
                if data != src:
                    bad("modified", "%s was rejected but changed to %s" %
                        (t["path"], short(data)))
            elif data != want:
                notdone.append(t["arg"])
                if data != src:
                    bad("wrong", "%s holds neither text: %s" %
                        (t["path"], short(data)))
        if notdone and code == 0:
            bad("false success", "exit 0 but not formatted: %s" %
                " ".join(notdone))
        quiet = not r.fired and case["knobs"].get("disk_free") is None and \
            "fdlimit" not in case["knobs"]
        if quiet and not notdone and code != 0:
            bad("false failure", "exit %d although every file is formatted; "
                "stderr: %s" % (code, short(r.err[0])))
        # Everything else must still be processed.
        if case["knobs"].get("disk_free") is None and \
                "fdlimit" not in case["knobs"]:
            lost = [t["arg"] for t, (ok, want) in zip(case["targets"], exp)
                    if ok and t["arg"] in notdone]
            # Before the first target is looked at a failure may be global.
            args = {t["arg"].encode() for t in case["targets"]}
            op1 = next((i for i, x in enumerate(r.oplog) if x[3] in args),
                       len(r.oplog))
            early = any((f["p"], f["op"], f["n"]) == x[:3]
                        for x in r.oplog[:op1] for f in case["faults"])
            hit = len([f for f in r.fired if f[0] in ("errno", "lose")])
            if not early and len(lost) > hit:
                bad("abandoned", "%d fault(s) but not formatted: %s" %
                    (hit, " ".join(lost)))
        env.probe("exit %d" % (code != 0))


MODES = [0o644, 0o600, 0o755, 0o640, 0o664, 0o400, 0o444, 0o666, 0o777, 0o4755,
         0o2755, 0o6711, 0o1644, 0o604, 0o200 | 0o444]


class C03(Prop):
    """Mode and ownership."""
    id = "C03"
    quick = 20000
    thorough = 400000

    def case(self, r, env):
        m = Maker(r)
        n = r.weighted([(4, 1), (2, 2), (1, 4)])
        ts = dedup([r.weighted([(6, m.known), (1, m.boundary),
                                (1, m.torn)])() for _ in range(n)])
        root = r.chance(1, 2)
        uid, gid = (0, 0) if root else (1000, 100)
        for t in ts:
            t["mode"] = r.pick(MODES) if r.chance(4, 5) else r.below(0o10000)
            if root:
                t["uid"], t["gid"] = r.pick([(0, 0), (1000, 100), (0, 100),
                                             (1000, 0), (7, 7)])
            else:
                t["uid"], t["gid"] = r.pick([(1000, 100)] * 4 +
                                            [(1000, 7), (7, 100), (7, 7)])
        c = {"flags": inplace_flags(r), "targets": ts,
             "files": {d: {"dir": 0o755 if r.chance(3, 4) else 0o1777,
                           "uid": uid, "gid": gid}
                       for d in ("/w", "/w/sub", "/w/sub/deep", "/other")},
             "proc": {"uid": uid, "gid": gid,
                      "umask": r.pick([0o22, 0o22, 0, 0o77, 0o27, 0o777])},
             "knobs": {"rng": r.below(1 << 40)}}
        if r.chance(1, 6):
            hardlinks(r, c)
        log = env.run(scenario(c)).oplog
        c["faults"] = []
        for _ in range(r.weighted([(3, 0), (6, 1), (2, 2)])):
            f = pick_fault(r, log, ["errno", "errno", "kill", "killafter",
                                    "short"],
                           lambda x: x[1] in FSOPS)
            if f:
                c["faults"].append(f)
        return c

    def judge(self, case, env):
        sc = scenario(case)
        orig = {}
        for t in case["targets"]:
            if t["kind"] not in ("missing", "dir"):
                orig[t["path"]] = t

        def inv(k, sim):
            for path, t in orig.items():
                n = k.lookup(path)
                if n is None:
                    return "missing: %s at step %d" % (path, k.step)
                if (n.mode & 0o7777) != t["mode"] or \
                        (n.uid, n.gid) != (t["uid"], t["gid"]):
                    return "attributes: %s was %o %d:%d, is %o %d:%d at " \
                        "step %d" % (path, t["mode"], t["uid"], t["gid"],
                                     n.mode & 0o7777, n.uid, n.gid, k.step)
            # What is not in place yet must not be exposed further than the
            # original would be.
            for n in k.created:
                if n.nlink <= 0 or n.kind != "f":
                    continue
                d = n.origin.rsplit("/", 1)[0]
                base = n.origin.rsplit("/", 1)[1]
                own = [t for p, t in orig.items()
                       if p.rsplit("/", 1)[0] == d and
                       p.rsplit("/", 1)[1] in base]
                if not own:
                    continue
                lim = 0
                for t in own:
                    lim |= t["mode"]
                if n.mode & 0o077 & ~lim:
                    return "exposed: temporary %s has mode %o, the original " \
                        "%o, at step %d" % (n.origin, n.mode & 0o7777, lim,
                                            k.step)
            return None
        r = env.run(sc, inv)
        if r.violation:
            cls, msg = r.violation.split(": ", 1)
            bad(cls, msg)
        for p, t in orig.items():
            n = r.k.lookup(p)
            if bytes(n.data) != t["src"].encode("latin-1"):
                env.probe("replaced")
                if t["mode"] & 0o7000:
                    env.probe("replaced special mode")
                if (t["uid"], t["gid"]) != (case["proc"]["uid"],
                                            case["proc"]["gid"]):
                    env.probe("replaced foreign owner")


MODESETS = [["-i"], ["-i"], ["-i"], ["-i", "-s"], [], ["-s"], ["-d"], ["-d"],
            ["-d", "-s"], ["-d", "-i"], ["-D"], ["-D", "-i"], ["-D", "-d"]]


def snapshot(k):
    """Every name with what it refers to."""
    return {p: (n.kind, n.ino, n.mode, n.uid, n.gid,
                bytes(n.data) if n.kind != "d" else b"")
            for p, n in k.files().items()}


def whole_diff(targets):
    """A diff that marks every line of every target as added."""
    out = ""
    for t in targets:
        lines = t["src"].split("\n")
        tail = lines.pop()
        if tail:
            lines.append(tail)
        if not lines:
            continue
        out += "--- /dev/null\n+++ %s\n@@ -0,0 +1,%d @@\n" % (
            t["arg"] + ("\t" if " " in t["arg"] else ""), len(lines))
        out += "".join("+%s\n" % l for l in lines)
        if tail:
            out += "\\ No newline at end of file\n"
    return out


class C04(Prop):
    """Footprint."""
    id = "C04"
    quick = 12000
    thorough = 240000

    def case(self, r, env):
        m = Maker(r)
        fl = r.pick(MODESETS)
        n = r.weighted([(3, 1), (3, 2), (1, 5)])
        ts = dedup([m.any() for _ in range(n)])
        c = {"flags": fl, "targets": ts, "knobs": {"rng": r.below(1 << 40)},
             "programs": {"diff": {"mode": r.pick(["ok"] * 4 + ["absent",
                                                               "fail"])}},
             "files": {}, "sched_seed": r.below(1 << 30)}
        # Innocent neighbours, some with names like ours.
        for i in range(r.below(4)):
            t = r.pick(ts)
            d, b = t["path"].rsplit("/", 1)
            p = r.pick([d + "/." + b + ".XXabcdef", d + "/" + b + "~",
                        d + "/." + b, d + "/." + b + ".XXXXXXXX",
                        "/tmp/libks.XXXXXXXX", d + "/" + b + ".orig",
                        "/tmp/" + b])
            c["files"][p] = {"data": "int  innocent ;\n"}
        if r.chance(1, 5):
            c["hardlinks"] = {}
            for t in ts:
                if t["kind"] not in ("missing", "dir"):
                    c["hardlinks"][t["path"] + ".hard"] = t["path"]
        if r.chance(1, 3):
            c["knobs"]["wchunk"] = chunks(r)
        if r.chance(1, 6):
            c["knobs"]["disk_free"] = r.range(0, 6000)
        c["faults"] = []
        log = env.run(self.scen(c)).oplog
        for _ in range(r.weighted([(2, 0), (8, 1), (3, 2)])):
            f = pick_fault(r, log, ["errno", "errno", "short", "lose",
                                    "killafter"],
                           lambda x: x[1] not in ("UNLINK", "UNLINKAT"))
            if f:
                if f["kind"] == "killafter" and r.chance(2, 3):
                    continue
                c["faults"].append(f)
        return c

    def scen(self, case):
        sc = scenario(case)
        if "-D" in case["flags"]:
            p = sc["procs"][0]
            p["argv"] = ["knfmt"] + case["flags"]
            p["stdin"] = {"data": whole_diff(case["targets"])}
        return sc

    def judge(self, case, env):
        sc = self.scen(case)
        writes = "-i" in case["flags"] and "-d" not in case["flags"]
        tpaths = {t["path"] for t in case["targets"]}
        start = [None]

        def inv(k, sim):
            if start[0] is None:
                start[0] = snapshot(k)
                return None
            s0 = start[0]
            now = snapshot(k)
            for p, v in s0.items():
                if p in now and now[p] == v:
                    continue
                if writes and p in tpaths and p in now:
                    continue
                return "touched: %s %s at step %d" % (
                    p, "disappeared" if p not in now else "changed", k.step)
            for p in now:
                if p in s0:
                    continue
                d, b = p.rsplit("/", 1)
                if d == "/tmp":
                    continue
                if writes and any(d == t.rsplit("/", 1)[0] for t in tpaths):
                    continue
                return "strays: %s created at step %d" % (p, k.step)
            return None
        r = env.run(sc, inv)
        if r.violation:
            cls, msg = r.violation.split(": ", 1)
            bad(cls, msg)
        if any(p.killed or p.crash for p in r.procs):
            env.probe("killed")
            return
        extra = sorted(set(snapshot(r.k)) - set(start[0]))
        if extra:
            bad("leftover", "%s remained after exit %s" %
                (" ".join(extra), r.code()))
        env.probe("mode %s" % " ".join(case["flags"]))


class C05(Prop):
    """What is formatted already is left alone."""
    id = "C05"
    quick = 7000
    thorough = 140000

    def case(self, r, env):
        m = Maker(r)
        n = r.weighted([(3, 1), (3, 3), (2, 8)])
        ts = []
        for _ in range(n):
            k = r.below(9)
            if k < 3:
                ts.append(m.known(noise=False))
            elif k == 8:
                ts.append(m.large(False) if r.chance(1, 12) else m.odd())
            elif k == 3:
                ts.append(m.boundary())
                ts[-1]["src"] = ts[-1]["want"]
            elif k < 6:
                ts.append(m.corpus(lambda x: x.startswith(("valid", "src"))))
            elif k == 6:
                ts.append(m.known())
            else:
                ts.append(m.torn())
        ts = dedup(ts)
        ro = r.chance(1, 3)
        c = {"flags": ["-i"] + (["-s"] if r.chance(1, 6) else []),
             "targets": ts, "knobs": {"rng": r.below(1 << 40)}, "files": {},
             "alloc": randalloc_(r), "faults": []}
        if ro:
            # Nothing may be written: not the owner, read only directories.
            c["proc"] = {"uid": 1000, "gid": 100}
        if r.chance(1, 2):
            c["knobs"]["rchunk"] = chunks(r)
        if r.chance(1, 6):
            hardlinks(r, c)
        log = env.run(scenario(c)).oplog
        for _ in range(r.weighted([(3, 0), (3, 1), (1, 2)])):
            f = pick_fault(r, log, ["errno", "short", "kill", "killafter"],
                           lambda x: x[1] in FSOPS)
            if f:
                c["faults"].append(f)
        return c

    def judge(self, case, env):
        same = []
        for t in case["targets"]:
            if t["kind"] in ("missing", "dir"):
                continue
            ok, want = expected(env, case, t)
            if ok and want == t["src"].encode("latin-1"):
                same.append(t)
        sc = scenario(case)
        ids = {}

        def inv(k, sim):
            for t in same:
                n = k.lookup(t["path"])
                if t["path"] not in ids:
                    ids[t["path"]] = (n, n.mtime, n.writes)
                    continue
                o = ids[t["path"]]
                if n is not o[0]:
                    return "replaced: %s is formatted but was replaced at " \
                        "step %d" % (t["path"], k.step)
                if (n.mtime, n.writes) != o[1:]:
                    return "written: %s is formatted but was written to at " \
                        "step %d" % (t["path"], k.step)
            for n in k.created:
                d, b = n.origin.rsplit("/", 1)
                for t in same:
                    td, tb = t["path"].rsplit("/", 1)
                    if d == td and tb in b and not any(
                            u is not t and u["path"].rsplit("/", 1)[1] in b
                            for u in case["targets"]):
                        return "temporary: %s created for %s, which is " \
                            "formatted" % (n.origin, t["path"])
            return None
        r = env.run(sc, inv)
        if r.violation:
            cls, msg = r.violation.split(": ", 1)
            bad(cls, msg)
        no_crash(r)
        if len(same) == len(case["targets"]):
            env.probe("all formatted")
            if not r.fired and r.code() != 0:
                bad("failure", "every file is formatted but exit is %s: %s" %
                    (r.code(), short(r.err[0])))
            if not r.fired and (r.out[0] or r.err[0]):
                bad("output", "unexpected output %s %s" %
                    (short(r.out[0]), short(r.err[0])))


def randalloc_(r):
    import gen
    return gen.randalloc(r)

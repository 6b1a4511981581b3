"""Streams: standard output, reading, histories of files, diffs, styles."""
import errno as E
import re

import gen
import programs
from base import *
from props_fs import FSOPS, dedup, inplace_flags, randalloc_, snapshot, whole_diff


def concat_ok(out, parts, partial):
    """Is out a concatenation of the parts in order, where with partial a part
    may be cut short (or be missing altogether)?"""
    pos = {0}
    for p in parts:
        nxt = set()
        for i in pos:
            if out.startswith(p, i):
                nxt.add(i + len(p))
            if partial:
                n = 0
                m = min(len(p), len(out) - i)
                while n < m and out[i + n] == p[n]:
                    n += 1
                nxt.update(range(i, i + n + 1))
        pos = nxt
    return len(out) in pos


class C06(Prop):
    """Standard output."""
    id = "C06"
    quick = 9000
    thorough = 180000

    def case(self, r, env):
        m = Maker(r)
        n = r.weighted([(4, 1), (3, 2), (2, 4)])
        ts = dedup([m.any() for _ in range(n)])
        if r.chance(1, 150):
            ts = crowd(r, m, ts, r.pick(["missing", "error"]))
        c = {"flags": r.pick([[], [], ["-s"]]), "targets": ts,
             "knobs": {}, "files": {}}
        k = r.below(6)
        if k == 0:
            c["files"]["/w/out"] = {"data": ""}
            c["proc"] = {"stdout": {"file": "/w/out"}}
            if r.chance(1, 2):
                c["knobs"]["disk_free"] = r.range(0, 3000)
        elif k == 1:
            c["proc"] = {"stdout": {"limit": r.range(0, 3000)}}
            c["knobs"]["sigpipe_ign"] = r.below(2)
        elif k == 2:
            c["others"] = [{"stub": "cat", "reads": 0}]
            size = sum(len(t["src"]) for t in ts)
            c["knobs"]["pipecap"] = r.pick(
                [x for x in (1, 16, 512, 4096, 65536) if size / x < 3000])
            c["sched_seed"] = r.below(1 << 30)
        elif k == 3 and r.chance(1, 4):
            c["proc"] = {"stdout": {"closed": 1}}
        if r.chance(1, 2):
            c["knobs"]["wchunk"] = chunks(r)
        if len(ts) == 1 and r.chance(1, 3) and ts[0]["kind"] not in (
                "missing", "dir"):
            # As a filter.
            ts[0]["path"] = ts[0]["arg"] = "/dev/stdin"
            ts[0]["stdin"] = 1
        c["faults"] = []
        log = env.run(self.scen(c)).oplog
        for _ in range(r.weighted([(4, 0), (5, 1), (2, 2)])):
            f = pick_fault(r, log, ["errno", "short", "short"],
                           lambda x: x[0] == 0 and (x[1] == "WRITE" or
                                                    r.chance(1, 6)))
            if f:
                c["faults"].append(f)
        return c

    def scen(self, case):
        sc = scenario(case)
        t = case["targets"][0]
        if t.get("stdin"):
            p = sc["procs"][0]
            del sc["files"]["/dev/stdin"]
            p["argv"] = ["knfmt"] + case["flags"]
            p["stdin"] = {"data": t["src"], "pipe": 1}
        return sc

    def judge(self, case, env):
        exp = []
        for t in case["targets"]:
            u = dict(t)
            if t.get("stdin"):
                u["path"], u["arg"] = "/w/in.c", "in.c"
            exp.append(expected(env, case, u))
        r = env.run(self.scen(case))
        no_crash(r)
        parts = [w for ok, w in exp if ok]
        out = r.out[0]
        if case.get("others"):
            seen = r.k.sc["procs"][1].get("seen")
            out = seen[0] if seen else b""
        code = r.code()
        if code is None:
            if r.status() & 0x7f != 13:
                bad("signal", "terminated by signal %d" % (r.status() & 0x7f))
            env.probe("SIGPIPE")
            if not (concat_ok(out, parts, True) if
                    any(f[0] == "errno" for f in r.fired) else
                    b"".join(parts).startswith(out)):
                bad("garbled", "reader got %s" % short(out))
            return
        failed = len(parts) < len(exp)
        if code == 0:
            if failed:
                bad("false success", "exit 0 although a file was rejected")
            if out != b"".join(parts):
                bad("lost output", "exit 0 but %d of %d bytes were delivered "
                    "or they differ: %s" % (len(out), sum(map(len, parts)),
                                            short(out)))
            env.probe("complete")
        else:
            fault = [f for f in r.fired if f[0] == "errno"] or \
                any(k in case["knobs"] for k in ("disk_free", "sigpipe_ign")) \
                or "closed" in case.get("proc", {}).get("stdout", {})
            if not failed and not fault:
                bad("false failure", "exit %d without cause: %s" %
                    (code, short(r.err[0])))
            if not concat_ok(out, parts, bool(fault)):
                bad("garbled", "output is not made of the formatted files: %s"
                    % short(out))
            env.probe("failed")


class C07(Prop):
    """How input is delivered does not matter."""
    id = "C07"
    quick = 6000
    thorough = 120000

    def case(self, r, env):
        m = Maker(r)
        k = r.weighted([(4, "file"), (3, "pipe"), (2, "style"), (2, "diff"),
                        (2, "helper")])
        t = r.weighted([(3, m.known), (4, m.boundary), (3, m.corpus),
                        (2, m.torn), (3, m.twisted), (1, m.odd),
                        (1, m.includes), (1, m.long)])()
        c = {"kind": k, "flags": r.pick([[], [], ["-s"]]), "targets": [t],
             "files": {}, "knobs": {"rchunk": chunks(r) or [1]},
             "programs": {"diff": {}}, "faults": []}
        if r.chance(1, 3):
            # Pieces that end right where a buffer does, after any history.
            b = 1 << r.range(9, 14)
            i = r.range(1, b - 1)
            c["knobs"]["rchunk"] = r.pick([[i, b - i], [b - 1, 1], [
                b - i, 1, i - 1 or 1, 1], [b // 2, 1, b // 2 - 1], [1]])
        if k == "style":
            s = "".join(r.pick(gen.styles()) for _ in range(r.range(1, 3)))
            if r.chance(1, 2):
                s += "# " + "x" * r.pick([4000, 4090, 8180, 8190, 70]) + "\n" \
                    + r.pick(gen.styles())
            c["files"]["/w/.clang-format"] = {"data": s}
        elif k == "helper":
            b = r.pick(sorted(gen.dumps()))
            c["files"]["/w/.clang-format"] = {
                "data": "BasedOnStyle: %s\n" % b + r.pick(gen.styles() + [""])}
            c["programs"]["clang-format"] = {"out": gen.dumps()[b],
                                             "chunk": r.pick([1 << 16, 100, 4096])}
            c["knobs"]["pipecap"] = r.pick([65536, 4096, 100])
            c["sched_seed"] = r.below(1 << 30)
        elif k == "diff":
            if r.chance(1, 3):
                n, p, s = r.pick(gen.patches())
                t.update(path="/w/" + n, arg=n, src=s, want=None,
                         kind="corpus")
                c["diff"] = p
            else:
                c["diff"] = whole_diff([t])
            c["flags"] = r.pick([["-D"], ["-D", "-d"]])
        if k == "file" and r.chance(1, 2):
            c["flags"] = c["flags"] + ["-i"]
        if r.chance(1, 3):
            # The read fails.
            log = env.run(self.scen(c)).oplog
            f = pick_fault(r, log, ["errno"],
                           lambda x: x[0] == 0 and x[1] == "READ")
            if f:
                c["faults"].append(lasts(r, f))
        return c

    def scen(self, case, plain=False):
        sc = scenario(case)
        p = sc["procs"][0]
        t = case["targets"][0]
        if case["kind"] == "pipe":
            p["argv"] = ["knfmt"] + case["flags"]
            p["stdin"] = {"data": t["src"], "pipe": 1}
        elif case["kind"] == "diff":
            p["argv"] = ["knfmt"] + case["flags"]
            p["stdin"] = {"data": case["diff"], "pipe": 1}
        if plain:
            sc["faults"] = []
            sc["knobs"] = {}
            sc.pop("sched_seed", None)
            if "clang-format" in sc["programs"]:
                sc["programs"]["clang-format"]["chunk"] = 1 << 20
        return sc

    def judge(self, case, env):
        a = env.run(self.scen(case, True))
        b = env.run(self.scen(case))
        no_crash(b)
        path = case["targets"][0]["path"]
        src = case["targets"][0]["src"].encode("latin-1")
        if b.fired and all(e == E.EINTR for _, _, e in b.fired) and (
                a.code(), a.out[0], a.content(path)) == (
                b.code(), b.out[0], b.content(path)):
            env.probe("interrupted read repeated")
            return
        if not b.fired:
            for what, x, y in (("exit", a.code(), b.code()),
                               ("output", a.out[0], b.out[0]),
                               ("file", a.content(path), b.content(path))):
                if x != y:
                    bad("delivery", "%s depends on how the input arrives: "
                        "%s, in pieces %s" % (
                            what, x if isinstance(x, int) else short(x),
                            y if isinstance(y, int) else short(y)))
            env.probe("same " + case["kind"])
            t = case["targets"][0]
            if case["kind"] in ("file", "pipe"):
                if case["kind"] == "pipe":
                    # Includes of a file's own header come first, standard
                    # input has no such name.
                    t = dict(t, path="/w/stdin.c", arg="stdin.c")
                ok, want = expected(env, case, t)
                got = b.content(path) if "-i" in case["flags"] else b.out[0]
                if ok != (b.code() == 0):
                    bad("verdict", "exit %s, expected %s" % (b.code(), ok))
                if ok and got != want:
                    bad("content", "expected %s, got %s" % (short(want),
                                                            short(got)))
            return
        # A failing read must never pass for the end of the input.
        if case["kind"] == "helper":
            # The helper's output is optional; C14 has the details.
            return
        if b.content(path) != src:
            bad("prefix", "a read failed but %s was changed to %s" %
                (path, short(b.content(path))))
        if b.out[0]:
            bad("prefix", "a read failed but output was produced: %s" %
                short(b.out[0]))
        if b.code() == 0:
            bad("false success", "a read failed but exit is 0")
        env.probe("failed read " + case["kind"])


class C08(Prop):
    """A file is formatted the same whatever came before it."""
    id = "C08"
    quick = 2500
    thorough = 60000

    def case(self, r, env):
        m = Maker(r)
        n = r.weighted([(2, 2), (3, 4), (3, 8), (1, 20)])
        fl = r.pick([[], [], ["-s"], ["-i"], ["-i", "-s"], ["-d"], ["-D"],
                     ["-D", "-i"], ["-D", "-s"]])
        ts = []
        for _ in range(n):
            k = r.below(10)
            if "-s" in fl and k < 1:
                ts.append(m.includes())
            elif "-s" in fl and k < 4:
                ts.append(m.corpus(lambda x: x.startswith("simple")))
            elif k < 6:
                ts.append(m.corpus())
            elif k < 7:
                ts.append(m.torn())
            else:
                ts.append(m.any())
        ts = dedup(ts)
        if r.chance(1, 3):
            if "-s" in fl:
                ts.append(m.includes())
            self.family(r, m, ts)
        if "-D" in fl:
            ts = [t for t in ts if t["src"]]
            n = r.below(4)
            for _ in range(n):
                nm, p, s = r.pick(gen.patches())
                path, arg = m.name()
                ts.insert(r.below(len(ts) + 1),
                          {"path": "/w/p%d_%s" % (m.n, nm),
                           "arg": "p%d_%s" % (m.n, nm), "src": s,
                           "want": None, "kind": "patch",
                           "patch": p.replace(nm, "p%d_%s" % (m.n, nm))})
        c = {"flags": fl, "targets": ts, "knobs": {"rng": r.below(1 << 40)},
             "programs": {"diff": {}}, "faults": [], "files": {},
             "alloc": randalloc_(r)}
        if r.chance(1, 4):
            c["files"]["/w/.clang-format"] = {"data": r.pick(gen.styles())}
        if r.chance(1, 2):
            log = env.run(self.scen(c, c["targets"])).oplog
            for _ in range(r.range(1, 3)):
                f = pick_fault(r, log, ["errno"],
                               lambda x: x[0] == 0 and x[1] in
                               ("READ", "MKSTEMP", "RENAME", "FSTAT", "FORK",
                                "FSYNC", "WRITE"))
                if f:
                    c["faults"].append(f)
        return c

    @staticmethod
    def family(r, m, ts):
        """Files that resemble earlier ones: whatever is remembered by name,
        size or contents would now be met again."""
        for _ in range(r.range(1, 4)):
            t = r.pick(ts) if r.chance(2, 3) else ts[-1]
            if t["kind"] in ("missing", "dir"):
                continue
            u = dict(t, want=None, kind="corpus")
            d, b = t["path"].rsplit("/", 1)
            k = r.below(5)
            s = t["src"]
            if k == 0:
                s = s.replace(b.rsplit(".", 1)[0], "qq")
            elif k == 1 and s:
                # Same size and nearly the same text.
                i = r.below(len(s))
                s = s[:i] + r.pick("abcxyz;(){} \n") + s[i + 1:]
            elif k == 2:
                s = s.encode("latin-1").upper().decode("latin-1") \
                    if r.chance(1, 2) else s[:r.below(len(s) + 1)]
            n = "".join(chr(ord(c) + 1) if c in "abcwxy012345678" and
                        r.chance(1, 3) else c for c in b)
            d = r.pick([d, d, "/w/su2"])
            u.update(path=d + "/" + n, src=s)
            if d == "/w/su2":
                u["arg"] = "su2/" + n
            else:
                u["arg"] = t["arg"][:-len(b)] + n
            if all(u["path"] != x["path"] for x in ts):
                ts.insert(r.below(len(ts) + 1), u)

    def scen(self, case, targets, alone=False):
        c = dict(case, targets=targets)
        if alone:
            c["faults"] = []
            c["alloc"] = {}
        sc = scenario(c)
        if "-D" in case["flags"]:
            p = sc["procs"][0]
            p["argv"] = ["knfmt"] + case["flags"]
            p["stdin"] = {"data": "".join(
                t["patch"] if t.get("patch") else whole_diff([t])
                for t in targets)}
        return sc

    def judge(self, case, env):
        ts = case["targets"]
        if not ts:
            return
        alone = []
        for t in ts:
            key = json.dumps(["c08", case["flags"], t, case["files"]],
                             sort_keys=True)
            h = env.cache.get(key)
            if h is None:
                x = env.run(self.scen(case, [t], True))
                if x.procs[0].crash:
                    bad("crash", x.procs[0].crash)
                h = (x.code(), x.out[0], x.err[0], x.content(t["path"]))
                env.cache[key] = h
            alone.append(h)
        r = env.run(self.scen(case, ts))
        no_crash(r)
        if r.fired and self.early(case, r):
            # The fault hit the style or the diff, that is all files: C14, C13.
            env.probe("early")
            return
        if "-D" in case["flags"] and not r.fired:
            # A diff that cannot be parsed fails as a whole.
            if any(b"diff: " in h[2] for h in alone):
                return
        if not r.fired:
            if r.code() != int(any(h[0] for h in alone)):
                bad("exit", "exit %s, alone: %s" %
                    (r.code(), [h[0] for h in alone]))
            if r.out[0] != b"".join(h[1] for h in alone):
                i = self.differs(r.out[0], [h[1] for h in alone])
                bad("output", "%s is formatted differently after other files"
                    % ts[i]["arg"])
            if r.err[0] != b"".join(h[2] for h in alone):
                bad("diagnostics", "differ: %s, alone: %s" %
                    (short(r.err[0]), short(b"".join(h[2] for h in alone))))
            env.probe("undisturbed")
        nbad = 0
        for t, h in zip(ts, alone):
            got = r.content(t["path"])
            if got == h[3]:
                continue
            if r.fired and got == t["src"].encode("latin-1"):
                nbad += 1
                continue
            bad("content", "%s: %s, alone: %s" % (t["path"], short(got),
                                                  short(h[3])))
        if r.fired:
            hit = len(r.fired)
            if not concat_ok(r.out[0], [h[1] for h in alone], True):
                bad("output", "not made of what each file yields alone: %s" %
                    short(r.out[0]))
            miss = self.missing(r.out[0], [h[1] for h in alone])
            if nbad > hit:
                bad("spread", "%d faults but %d files not processed" %
                    (hit, nbad))
            if miss is not None and miss > hit:
                bad("spread", "%d faults but %d files not printed" %
                    (hit, miss))
            env.probe("disturbed")

    @staticmethod
    def early(case, r):
        args = {t["arg"].encode() for t in case["targets"]}
        op1 = next((i for i, x in enumerate(r.oplog) if x[3] in args),
                   len(r.oplog))
        return any((f["p"], f["op"], f["n"]) == x[:3]
                   for x in r.oplog[:op1] for f in case["faults"])

    @staticmethod
    def differs(out, parts):
        pos = 0
        for i, p in enumerate(parts):
            if not out.startswith(p, pos):
                return i
            pos += len(p)
        return len(parts) - 1

    @staticmethod
    def missing(out, parts):
        """Least number of parts that are not printed completely."""
        best = {0: 0}
        for p in parts:
            nxt = {}

            def put(i, c):
                if i not in nxt or nxt[i] > c:
                    nxt[i] = c
            for i, c in best.items():
                if out.startswith(p, i):
                    put(i + len(p), c)
                n = 0
                m = min(len(p), len(out) - i)
                while n < m and out[i + n] == p[n]:
                    n += 1
                if len(parts) > 6:
                    for k in {0, n}:
                        put(i + k, c + 1)
                else:
                    for k in range(n + 1):
                        put(i + k, c + 1)
            best = nxt
        return best.get(len(out))


class C12(Prop):
    """-d shows the truth and touches nothing."""
    id = "C12"
    quick = 6000
    thorough = 120000

    def case(self, r, env):
        m = Maker(r)
        n = r.weighted([(4, 1), (3, 2), (1, 5)])
        ts = dedup([m.any() for _ in range(n)])
        if r.chance(1, 250):
            ts = crowd(r, m, ts, r.pick(["missing", "error", "differs"]))
        elif r.chance(1, 5):
            # No newline at the end.
            ts[0]["src"] = ts[0]["src"].rstrip("\n")
            ts[0]["want"] = None
        c = {"flags": r.pick([["-d"], ["-d"], ["-ds"], ["-d", "-i"]]),
             "targets": ts, "knobs": {"rng": r.below(1 << 40)},
             "programs": {"diff": {}}, "sched_seed": r.below(1 << 30)}
        if c["flags"] == ["-ds"]:
            c["flags"] = ["-d", "-s"]
        if r.chance(1, 3):
            c["knobs"]["wchunk"] = chunks(r)
        if r.chance(1, 3):
            c["knobs"]["rchunk"] = chunks(r)
        if r.chance(1, 10):
            c["knobs"]["disk_free"] = r.range(0, 4000)
        if r.chance(1, 10):
            c["knobs"]["fdlimit"] = r.range(4, 8)
        if r.chance(1, 6):
            c["programs"]["diff"]["mode"] = r.pick(["absent", "fail"])
        log = env.run(scenario(c)).oplog
        c["faults"] = []
        for _ in range(r.weighted([(4, 0), (6, 1), (2, 2)])):
            f = pick_fault(r, log, ["errno", "errno", "short", "kill"],
                           lambda x: True)
            if f and f["kind"] == "kill" and f["p"] == 0:
                continue
            if f:
                c["faults"].append(f)
        return c

    def judge(self, case, env):
        exp = [expected(env, case, t) for t in case["targets"]]
        start = {}

        def inv(k, sim):
            if not start:
                start.update(snapshot(k))
                return None
            now = snapshot(k)
            for p, v in start.items():
                if now.get(p) != v:
                    return "touched: %s changed at step %d" % (p, k.step)
            return None
        r = env.run(scenario(case), inv)
        if r.violation:
            cls, msg = r.violation.split(": ", 1)
            bad(cls, msg)
        no_crash(r)
        code = r.code()
        if code is None:
            bad("signal", "terminated by signal %d" % (r.status() & 0x7f))
        out = r.out[0]
        parts, need = [], False
        for t, (ok, want) in zip(case["targets"], exp):
            src = t["src"].encode("latin-1")
            if not ok:
                need = True
                parts.append(None)
            elif want != src:
                need = True
                parts.append((src, want, t["arg"].encode()))
            else:
                parts.append(None)
        if need and code == 0:
            bad("false success", "exit 0 although not everything is formatted")
        disturbed = [f for f in r.fired if f[0] in ("errno", "kill")] or \
            "disk_free" in case["knobs"] or "fdlimit" in case["knobs"] or \
            case["programs"]["diff"].get("mode")
        if not need and not disturbed and code != 0:
            bad("false alarm", "exit %d although everything is formatted: %s" %
                (code, short(r.err[0])))
        if not need and out:
            bad("spurious", "output for formatted files: %s" % short(out))
        # Split the output into one diff per file.
        diffs = self.split(out)
        todo = [p for p in parts if p]
        if not disturbed:
            if len(diffs) != len(todo):
                bad("diffs", "%d files need formatting, %d diffs shown" %
                    (len(todo), len(diffs)))
            for d, (src, want, arg) in zip(diffs, todo):
                self.verify(d, src, want, arg)
            if r.err[0] and all(ok for ok, _ in exp):
                bad("messages", "nothing failed but it says %s" %
                    short(r.err[0]))
            env.probe("verified", len(todo))
        else:
            # Whatever is shown must be right, or cut short. Not being able
            # to wait it is only natural that outputs overlap.
            if any(f[:2] == ("errno", "WAITPID") for f in r.fired):
                return
            full = [programs.udiff(s, w, a + b".orig", a) for s, w, a in todo]
            if not concat_ok(out, full, True):
                bad("garbled", "shows something else: %s" % short(out, 400))
            env.probe("disturbed")

    @staticmethod
    def split(out):
        idx = []
        pos = 0
        for l in out.split(b"\n"):
            if l.startswith(b"--- ") and l.endswith(b".orig"):
                idx.append(pos)
            pos += len(l) + 1
        if out and (not idx or idx[0] != 0):
            idx.insert(0, 0)
        return [out[a:b] for a, b in zip(idx, idx[1:] + [len(out)])]

    @staticmethod
    def verify(d, src, want, arg):
        x = programs.apply_udiff(src, d)
        if x is None:
            bad("diffs", "the diff for %s does not apply: %s" %
                (arg.decode(), short(d, 400)))
        if x[0] != want:
            bad("diffs", "the diff for %s yields something else than the "
                "formatted text" % arg.decode())
        if arg not in x[1] or arg not in x[2]:
            bad("labels", "the diff for %s is labelled %r %r" %
                (arg.decode(), x[1], x[2]))


class C13(Prop):
    """-D: only what the received diff covers."""
    id = "C13"
    BROKEN = [x.split("|") for x in (
        "int a;||#ifndef b1||#ifdef b2|int debug = 1;|#endif||0||#endif",
        "int a;||#ifndef b1|#ifdef b2|int debug = 1;|#endif|0|#endif||int b;",
        "int a;|#if A|int b;|#else|int c;|#endif|#if B|0|#endif|int d;")]
    quick = 18000
    thorough = 360000

    # What declarations of the same type have in common once they are merged.
    MERGED = re.compile(r"\b(int|char|const|struct|s|unsigned)\b")

    def movable(self, r):
        """What -s moves around, in blocks that end with an empty line."""
        def end(same=True):
            return r.pick(["\n", "\n", "\n", " /* x */\n", "\n\n"] +
                          [" "] * same)

        def name():
            return r.pick("abcdefgh")
        out = []
        for _ in range(r.range(1, 4)):
            k = r.below(3)
            b = ""
            if k == 0:
                q = r.pick(["<%s.h>", '"%s.h"'])
                for _ in range(r.range(1, 6)):
                    b += "#include " + q % name() + end(False)
            elif k == 1:
                for _ in range(r.range(1, 6)):
                    b += r.pick(["struct %s;", "struct %s;", "struct  %s ;",
                                 "typedef struct %s t;"]) % name() + end()
            else:
                b = "int\nf%d(void)\n{\n" % r.below(99)
                for _ in range(r.range(1, 6)):
                    b += "\t" + r.pick(["int", "int", "char", "const char",
                                        "struct s", "unsigned int"]) + " " + \
                        ", ".join(r.pick(["", "", "*", "**"]) + name() +
                                  str(r.below(9)) +
                                  r.pick([""] * 4 + [" = 1", "[2]"])
                                  for _ in range(r.range(1, 3))) + ";" + end()
                b = b.rstrip(" ") + "\n" * (b[-1] == " ")
                for _ in range(r.below(4)):
                    b += r.pick(["\tx  = 1;\n", "\treturn (1);\n",
                                 "\tif (a) {\n\t\treturn 1;\n\t}\n",
                                 "\tfor (;;)\n\t\tg( );\n"])
                b += "}\n"
            out.append(b.rstrip("\n ") + "\n")
            if k != 2 and r.chance(1, 3):
                out.append("int x%d;\n" % r.below(99))
        return out

    def case_moving(self, r):
        """Chunks that cover some of what -s moves around."""
        bs = self.movable(r)
        ls, blocks = [], []
        for b in bs:
            n = len(ls)
            ls += b.split("\n")
            blocks.append([n, len(ls) - 1])
        ls.pop()
        add = []
        k = r.below(4)
        if k == 0:
            add = [[0, len(ls)]]
        elif k == 1:
            add = [list(r.pick(blocks))]
        else:
            y = 0
            while y < len(ls):
                x = r.range(y, len(ls) - 1)
                y = min(len(ls), x + 1 + r.pick([0, 1, 3, 8]))
                add.append([x, y])
                y += 1
                if r.chance(1, 3):
                    break
        t = {"path": "/w/m.c", "name": "m.c", "raw": ls, "add": add, "del": [],
             "units": [], "ctx": 0, "kind": "diff", "old": None}
        return {"targets": [t], "knobs": {"rng": r.below(1 << 40)},
                "faults": [], "flags": ["-D", "-s"] + r.pick([[], ["-i"]]),
                "programs": {"diff": {}}, "files": {}, "cwd": "/w",
                "moving": blocks}

    def judge_moving(self, case, env):
        t = case["targets"][0]
        r = env.run(self.scen(case))
        no_crash(r)
        if r.code() != 0:
            bad("moving", "exit %s: %s" % (r.code(), short(r.err[0])))
        got = r.content(t["path"]) if "-i" in case["flags"] else r.out[0]
        got = (got or b"").decode("latin-1")

        def words(s):
            return sorted(re.findall(r"\w+", self.MERGED.sub("", s)))
        a, b = words("\n".join(t["raw"])), words(got)
        if a != b:
            bad("moving", "lost %s, repeated %s: %s" % (
                list((collections.Counter(a) - collections.Counter(b))
                     .elements()),
                list((collections.Counter(b) - collections.Counter(a))
                     .elements()), short(got.encode("latin-1"), 800)))
        pos = 0
        for x, y in case["moving"]:
            if any(b < y and x < e for b, e in t["add"]):
                continue
            s = "".join(l + "\n" for l in t["raw"][x:y])
            p = got.find(s, pos)
            if p < 0:
                bad("outside", "lines %d-%d, not covered, changed: %s" % (
                    x + 1, y, short(got.encode("latin-1"), 800)))
            pos = p + len(s)
        env.probe("text that -s moves")

    def case(self, r, env):
        if r.chance(1, 10):
            return self.case_moving(r)
        m = Maker(r)
        n = r.weighted([(5, 1), (3, 2), (1, 4)])
        c = {"targets": [], "knobs": {"rng": r.below(1 << 40)}, "faults": [],
             "flags": ["-D"] + r.pick([[], ["-i"], ["-i"], ["-i"], ["-d"]]),
             "programs": {"diff": {}}, "files": {}, "cwd": "/w"}
        depth = r.weighted([(4, 0), (2, 1), (1, 2), (1, 3)])
        sub = "".join(["s1/", "s2/", "s3/"][:depth])
        c["cwd"] = "/w" + ("/" + sub[:-1] if sub else "")
        git = r.chance(1, 2)
        c["git"] = git
        ctx = r.weighted([(2, 0), (1, 1), (2, 3), (1, 8)])
        partial = r.chance(1, 2)
        for i in range(n):
            c["targets"].append(self.target(r, i, sub, git, partial, ctx, c,
                                            env))
        if r.chance(1, 6):
            # A file that was removed altogether.
            c["removed"] = r.below(n + 1)
        text, hunks = self.diff(c)
        total = len(text)
        k = r.below(8)
        if k < 3 and total:
            c["cut"] = r.below(total + 1)
            if hunks and r.chance(1, 2):
                h = r.pick(hunks)
                c["cut"] = min(total, max(0, r.pick([h["start"], h["head"],
                                                     h["last"], h["end"]]) +
                                          r.range(-2, 2)))
        elif k == 4 and r.chance(1, 3):
            # Line numbers beyond reason.
            c["far"] = r.pick([2147483647, 4294967295, 4294967290, 4294967294, 4294967296,
                               18446744073709551615, 18446744073709551616,
                               1 << 70, r.range(1, 300) + (1 << 33)])
        elif k == 3:
            # Somebody edited the file meanwhile.
            t = r.pick(c["targets"])
            t["stale"] = r.pick(["shorter", "longer", "gone", "empty", "other"])
        if r.chance(1, 3):
            c["knobs"]["rchunk"] = chunks(r)
        if r.chance(1, 4):
            log = env.run(self.scen(c)).oplog
            f = pick_fault(r, log, ["errno", "short"],
                           lambda x: x[0] == 0)
            if f:
                c["faults"].append(f)
        return c

    def raw(self, r, env):
        """Real code, touched anywhere."""
        if r.chance(1, 12):
            # Conditionals that cannot be parsed, in more than one go.
            ls = [l for i in range(r.below(4))
                  for l in ("int x%d;" % i, "")] + r.pick(self.BROKEN)
            b = r.below(len(ls))
            return {"raw": ls, "units": [], "sure": 1, "del": [],
                    "add": [[b, r.range(b + 1, len(ls))]]}
        m = Maker(r)
        for _ in range(8):
            t = m.corpus()
            if len(t["src"]) > 40000 or "\0" in t["src"]:
                continue
            code, out, _ = reference(env, {"flags": []}, t)
            if code == 0 and t["src"] and \
                    b"".join(out.split()) == \
                    b"".join(t["src"].encode("latin-1").split()):
                break
        else:
            return None
        ls = t["src"].split("\n")
        if ls[-1] == "":
            ls.pop()
        add = []
        for _ in range(r.weighted([(3, 1), (3, 2), (2, 6)])):
            b = r.below(len(ls))
            add.append([b, b + r.weighted([(4, 1), (3, r.range(2, 5)),
                                           (1, len(ls))])])
        return {"raw": ls, "add": add, "units": [],
                "del": [[r.below(len(ls)), r.range(1, 2)]
                        for _ in range(r.below(3))]}

    STMTS = (("a=a+%d ;", "a = a + %d;"), ("g(a,%d) ;", "g(a, %d);"),
             ("a+= %d ;", "a += %d;"), ("p->q=%d ;", "p->q = %d;"),
             ("return   a+%d ;", "return a + %d;"),
             ("x [%d]=b ;", "x[%d] = b;"))
    HEADS = ("if (a > %d) {", "while (a < %d) {",
             "for (a = 0; a < %d; a++) {")
    DECLS = ("int  v%d ;", "char   *v%d ;", "static  int v%d=1 ;",
             "extern int  v%d ;", "int f%d( int  a ) ;", "typedef int  t%d ;",
             "#define  M%d 1", "#include  \"x%d.h\"")

    def block(self, r, d):
        out = []
        for _ in range(r.range(1, 4)):
            n = r.below(100)
            if d < 5 and r.chance(1, 4):
                h = r.pick(self.HEADS)
                out.append(["\t" * d + h % n, None])
                out += self.block(r, d + 1)
                if h[0] == "i" and r.chance(1, 2):
                    out.append(["\t" * d + "} else {", None])
                    out += self.block(r, d + 1)
                out.append(["\t" * d + "}", None])
            else:
                s, w = r.pick(self.STMTS)
                ind = r.pick(["\t" * d, "\t" * d, "\t" * d + "  ",
                              "    " * d])
                out.append([ind + s % n, "\t" * d + w % n])
        return out

    def lined(self, r):
        """One statement or declaration per line: nothing but what is covered
        may change, to the line.  The second element is the line once covered:
        None if it never is, "" if all but its white space is known."""
        ls = []
        for k in range(r.range(1, 5)):
            if k:
                ls.append(["", None])
            if r.chance(1, 3):
                ls += [[r.pick(self.DECLS) % (10 * k + j), ""]
                       for j in range(r.range(1, 8))]
            else:
                ls += [["int", None], ["f%d(int a)" % k, None], ["{", None]] + \
                    self.block(r, 1) + \
                    [["\treturn   a;", "\treturn a;"], ["}", None]]
        n = r.pick([10, 3, 2, 1])
        can = [i for i, x in enumerate(ls) if x[1] is not None]
        add = [[i, i + 1] for i in can if r.chance(1, n)] or \
            [[i, i + 1] for i in r.sample(can, 1)]
        return {"raw": [x[0] for x in ls], "lw": [x[1] for x in ls],
                "add": add, "units": [], "sure": 1,
                "del": [[r.below(len(ls)), r.range(1, 2)]
                        for _ in range(r.below(3))]}

    def target(self, r, i, sub, git, partial, ctx, c, env):
        g = gen.CGen(r, "d%d" % i)
        units = []
        raw = r.weighted([(2, lambda: None), (1, lambda: self.raw(r, env)),
                          (1, lambda: self.lined(r))])()
        noise = r.chance(7, 8)
        nu = r.range(1, 9)
        whole = r.chance(1, 12)     # a new file
        for j in range(nu):
            s, w = g.unit(noise)
            ln = s.count("\n")
            u = {"s": s, "w": w, "add": [], "del": 0,
                 "sep": r.weighted([(12, 1), (1, 2), (1, 4)]), "sepadd": 0}
            if whole:
                u["add"] = [[0, ln]]
                u["sepadd"] = 1
            elif r.chance(1, 3):
                u["del"] = r.below(3)
                u["add"] = [[0, ln]]
                if partial and r.chance(2, 3):
                    u["add"] = []
                    for _ in range(r.range(1, 2)):
                        b = r.below(ln)
                        u["add"].append([b, min(ln, b + r.range(1, 3))])
                u["sepadd"] = int(partial and r.chance(1, 5))
            elif r.chance(1, 10):
                u["del"] = r.range(1, 3)    # something was removed here
            units.append(u)
        base = "d%d.c" % i
        if not raw and r.chance(1, 8):
            base = "d%d x.c" % i
            c["files"]["/w/" + sub + "d%d" % i] = {
                "data": "int  decoy ;\n", "mode": 0o644}
        below = r.pick(["", "", "", "t/"])
        path = "/w/" + sub + below + base
        style = r.below(6)
        t = {"path": path, "units": units, "ctx": ctx, "kind": "diff",
             "old": "/dev/null" if whole else None}
        if raw:
            t.update(raw)
        rel = below + base
        if style == 0:
            name = path                     # absolute
        elif style == 1:
            name = r.pick(["b/", "", "./"]) + rel      # git diff --relative
        elif git:
            name = r.pick(["b/", "b/", ""]) + sub + rel
        else:
            name = r.pick(["b/", ""]) + rel
        if git and not raw and r.chance(1, 8):
            # Elsewhere in the repository, with a namesake nearby.
            t["path"] = "/w/elsewhere/" + base
            name = "b/elsewhere/" + base
            t["away"] = 1
            if sub:
                t["away"] = 2
                c["files"]["/w/" + sub + base] = {
                    "data": "".join(u["s"] + "\n" for u in units) +
                    "int  decoy ;\n", "mode": 0o644}
        if r.chance(1, 4):
            name += "\t" + r.pick(["2024-02-03 04:05:06.000000000 +0100",
                                   "(working copy)", ""])
        t["name"] = name
        if r.chance(1, 3):
            t["pre"] = "diff --git a/%s b/%s\nindex 1234567..89abcde 100644\n" \
                % (rel, rel)
        if r.chance(1, 3):
            t["heading"] = r.pick([" main(int argc, char *argv[])",
                                   " struct x {", " x = y +5;", " @@",
                                   " x +1 @@", " +2,3 @@ +4"])
        if not raw and r.chance(1, 12):
            t["nonl"] = r.pick(["new", "both"])
        return t

    @staticmethod
    def lines(t):
        """[(text, added, unit, line of unit, deleted before)]"""
        if "raw" in t:
            return [(l, any(b <= j < e for b, e in t["add"]), -1, j,
                     sum(k for x, k in t["del"] if x == j))
                    for j, l in enumerate(t["raw"])]
        out = []
        us = t["units"]
        for i, u in enumerate(us):
            ls = u["s"].split("\n")[:-1]
            for j, l in enumerate(ls):
                add = any(b <= j < e for b, e in u["add"])
                out.append((l, add, i, j, u["del"] if j == 0 else 0))
            if i + 1 < len(us):
                for _ in range(u["sep"]):
                    out.append(("", bool(u["sepadd"]), i, -1, 0))
        return out

    def source(self, t):
        s = "\n".join(x[0] for x in self.lines(t)) + "\n"
        return s[:-1] if t.get("nonl") else s

    def diff(self, case):
        """The diff text and where each hunk lies in it."""
        out = ""
        hunks = []
        far = case.get("far", 0)
        for ti, t in enumerate(case["targets"]):
            if case.get("removed") == ti:
                out += ("--- a/removed.c\n+++ /dev/null\n@@ -1,2 +0,0 @@\n"
                        "-int removed;\n-++ b/removed.c;\n")
            ls = self.lines(t)
            ops = []        # (sign, text, index of new line)
            for n, (l, add, ui, j, dels) in enumerate(ls):
                ops += [("-", "int old%d;" % d, None) for d in range(dels)]
                ops.append(("+" if add else " ", l, n))
            if t.get("nonl"):
                s, l, n = ops[-1]
                eof = "\n\\ No newline at end of file"
                if s == " ":
                    if t["nonl"] == "both":
                        ops[-1] = (s, l + eof, n)
                    else:
                        ops[-1:] = [("-", l, None), ("+", l + eof, n)]
                elif t["nonl"] == "both":
                    ops[-1:] = [("-", "int last;" + eof, None),
                                ("+", l + eof, n)]
                else:
                    ops[-1] = (s, l + eof, n)
            old = t["old"] or "a/" + t["name"].split("\t")[0]
            out += t.get("pre", "") + "--- %s\n+++ %s\n" % (old, t["name"])
            ch = [k for k, o in enumerate(ops) if o[0] != " "]
            groups = []
            for k in ch:
                if groups and k - groups[-1][1] <= 2 * t["ctx"] + 1:
                    groups[-1][1] = k
                else:
                    groups.append([k, k])
            for a, b in groups:
                a = max(0, a - t["ctx"])
                b = min(len(ops), b + t["ctx"] + 1)
                body = ops[a:b]
                ob = sum(1 for o in ops[:a] if o[0] != "+")
                nb = sum(1 for o in ops[:a] if o[0] != "-") + far
                on = sum(1 for o in body if o[0] != "+")
                nn = sum(1 for o in body if o[0] != "-")

                def span(p, q):
                    if q == 1:
                        return "%d" % (p + 1)
                    return "%d,%d" % (p + (q > 0), q)
                h = {"t": ti, "start": len(out), "new": 0 if far else nn,
                     "lines": [o[2] for o in body if o[0] == "+"]}
                out += "@@ -%s +%s @@" % (span(ob, on), span(nb, nn))
                h["head"] = len(out)
                out += t.get("heading", "") + "\n"
                h["last"] = h["end"] = len(out)
                for s, l, _ in body:
                    if s != "-":
                        h["last"] = len(out)
                        h["end"] = len(out) + 1 + len(l.split("\n")[0])
                    out += s + l + "\n"
                hunks.append(h)
        return out, hunks

    def scen(self, case):
        c = dict(case, targets=[])
        sc = scenario(c)
        sc["files"][case["cwd"]] = {"dir": 0o755}
        if case.get("git"):
            sc["files"]["/w/.git"] = {"dir": 0o755}
        p = sc["procs"][0]
        p["argv"] = ["knfmt"] + case["flags"]
        text, _ = self.diff(case)
        p["stdin"] = {"data": text[:case.get("cut", len(text))], "pipe": 1}
        for t in case["targets"]:
            data = self.present(t)
            if data is not None:
                sc["files"][t["path"]] = {"data": data, "mode": 0o644,
                                          "uid": 0, "gid": 0}
        return sc

    def present(self, t):
        how = t.get("stale")
        if how == "gone":
            return None
        if "raw" in t and how in ("shorter", "other"):
            return "\n".join(t["raw"][:3] if how == "shorter" else
                             t["raw"] + t["raw"]) + "\n"
        if how == "shorter":
            return t["units"][0]["s"]
        if how == "longer":
            return "int first;\n\n" * 7 + self.source(t)
        if how == "empty":
            return ""
        if how == "other":
            return "\n".join(u["s"] for u in reversed(t["units"]))
        return self.source(t)

    @staticmethod
    def apart(ls, added):
        """The complete functions before and after all covered lines."""
        if not added:
            return "\n".join(ls) + "\n", ""
        ends = [i + 1 for i, l in enumerate(ls) if l == "}" and
                ls[i + 1:i + 2] == [""]]
        b = max([i for i in ends if i <= min(added)] + [0])
        e = min([i + 1 for i in ends if i > max(added)] + [len(ls)])
        return "".join(l + "\n" for l in ls[:b]), \
            "".join(l + "\n" for l in ls[e:])

    def match(self, t, added, got, pos):
        """Where the text of the file ends in got, or a complaint."""
        ls = self.lines(t)
        if "lw" in t:
            for n, (l, w) in enumerate(zip(t["raw"], t["lw"])):
                e = got.find("\n", pos)
                g = got[pos:e] if e >= 0 else got[pos:]
                if n not in added:
                    ok = g == l
                elif w:
                    ok = g == w
                else:
                    ok = "".join(g.split()) == "".join(l.split())
                if not ok or e < 0:
                    return None, "line %d (%s)" % (
                        n + 1, "covered" if n in added else "not covered")
                pos = e + 1
            return pos, None
        if "raw" in t:
            head, tail = self.apart(t["raw"], added)
            if not got.startswith(head, pos):
                return None, "the constructs before line %d changed" % (
                    head.count("\n") + 1)
            if tail and "\n" + tail not in got[pos:]:
                return None, "the constructs in the last %d lines changed" % \
                    tail.count("\n")
            for ch in "".join("".join(t["raw"]).split()):
                while pos < len(got) and got[pos].isspace():
                    pos += 1
                if got[pos:pos + 1] != ch:
                    return None, "something got lost"
                pos += 1
            while pos < len(got) and got[pos].isspace():
                pos += 1
            return pos, None
        us = t["units"]
        cov = [[0, 0, 0] for _ in us]       # lines, added, separator added
        for n, (l, _, ui, j, _) in enumerate(ls):
            if j < 0:
                cov[ui][2] |= n in added
            else:
                cov[ui][0] += 1
                cov[ui][1] += n in added
        loose = False       # white space before this unit may change
        for i, u in enumerate(us):
            last = i + 1 == len(us)
            hit = cov[i][1] > 0
            sep = "\n" * (us[i - 1]["sep"]) if i else ""
            p = pos
            while p < len(got) and got[p] in " \t\n":
                p += 1
            if not (loose or hit) and got[pos:p] != sep:
                return None, "white space before construct %d" % i
            pos = p
            near = i > 0 and cov[i - 1][2] and not hit
            if near and got[pos:pos + len(u["s"])] != u["s"]:
                # The white space just before it is covered.
                hit = True
            if not hit or cov[i][1] == cov[i][0]:
                w = u["w"] if hit else u["s"]
                if last and t.get("nonl") and (
                        not hit or not got.startswith(w, pos)):
                    w = w[:-1]
                if got[pos:pos + len(w)] != w:
                    return None, "construct %d (%s)" % (
                        i, "covered" if hit else "not covered")
                pos += len(w)
            else:
                for ch in u["s"]:
                    if ch in " \t\n":
                        continue
                    while pos < len(got) and got[pos] in " \t\n":
                        pos += 1
                    if got[pos:pos + 1] != ch:
                        return None, "construct %d (partly covered)" % i
                    pos += 1
                if got[pos:pos + 1] == "\n":
                    pos += 1
                elif not (last and t.get("nonl")):
                    return None, "line of construct %d does not end" % i
            loose = hit or cov[i][2]
        return pos, None

    def judge(self, case, env):
        if "moving" in case:
            return self.judge_moving(case, env)
        text, hunks = self.diff(case)
        cut = case.get("cut", len(text))
        r = env.run(self.scen(case))
        no_crash(r)
        code = r.code()
        if code is None:
            bad("signal", "terminated by signal %d" % (r.status() & 0x7f))
        sure, maybe, torn = {}, {}, False
        for h in hunks:
            if h["new"] == 0:
                continue
            if cut >= h["end"]:
                sure.setdefault(h["t"], set()).update(h["lines"])
            elif cut > h["last"]:
                maybe.setdefault(h["t"], set()).update(h["lines"])
            elif cut >= h["head"]:
                torn = True
        disturbed = any(f[0] == "errno" for f in r.fired)
        stale = any(t.get("stale") for t in case["targets"]) or \
            bool(case.get("far"))
        away = any(t.get("away") for t in case["targets"])
        touched = False
        inplace = "-i" in case["flags"]
        for p, f in case["files"].items():
            if "data" in f and r.content(p) != f["data"].encode("latin-1"):
                bad("unnamed", "%s, which the diff does not name, changed" % p)

        def ways(ti):
            a = sure.get(ti, set())
            yield a
            if ti in maybe:
                yield a | maybe[ti]
        for ti, t in enumerate(case["targets"]):
            got = r.content(t["path"])
            src = self.present(t)
            src = None if src is None else src.encode("latin-1")
            if not inplace or t.get("away", 0) == 2:
                if got != src:
                    bad("touched", "%s changed without reason" % t["path"])
                continue
            if t.get("stale"):
                if "raw" in t and "sure" not in t and src and got != src:
                    c0, o0, _ = reference(env, {"flags": []}, dict(
                        t, src=src.decode("latin-1"), arg=t["path"],
                        kind="corpus"))
                    if c0 == 0 and b"".join(o0.split()) != \
                            b"".join(src.split()):
                        continue    # whether there is a diff or not
                if got != src and (got is None or src is None or
                                   got.split() != src.split() and
                                   b"".join(got.split()) !=
                                   b"".join(src.split())):
                    bad("stale", "%s: damaged by a stale diff: %s" % (
                        t["path"], short(got, 600)))
                continue
            if got != src:
                touched = True
            ok = got == src and code != 0
            why = None
            g = got.decode("latin-1")
            for a in ways(ti):
                if ok:
                    break
                pos, why = self.match(t, a, g, 0)
                ok = pos == len(g)
            if not ok:
                bad("outside", "%s: %s: cut %d of %d, lines %s: %s" %
                    (t["path"], why or "text after the end", cut, len(text),
                     sorted(1 + x for x in sure.get(ti, ())),
                     short(got, 600)))
        if not inplace and "-d" not in case["flags"] and \
                not disturbed and not stale and not torn and code == 0 and \
                not away and r.out[0].strip():
            # Standard output: each file in turn.
            g = r.out[0].decode("latin-1")
            ends = {0}
            why = "?"
            for ti, t in enumerate(case["targets"]):
                nxt = set(ends)     # not announced yet
                for e in ends:
                    for a in ways(ti):
                        pos, w = self.match(t, a, g, e)
                        if pos is not None:
                            nxt.add(pos)
                        else:
                            why = "%s: %s" % (t["path"], w)
                ends = nxt
            if cut < len(text):
                # A name cut short may be that of another file.
                for f in case["files"].values():
                    ends |= {e + len(f["data"]) for e in ends
                             if g.startswith(f["data"], e)}
            if len(g) not in ends:
                bad("outside", "%s: cut %d of %d: %s" % (
                    why, cut, len(text), short(r.out[0], 600)))
        if torn:
            env.probe("torn hunk")
            if code == 0:
                bad("false success", "the diff ends inside a hunk but exit "
                    "is 0")
            if touched:
                bad("torn", "the diff ends inside a hunk but files changed")
            if r.out[0]:
                bad("torn", "the diff ends inside a hunk but there is output: "
                    "%s" % short(r.out[0]))
        if cut == len(text) and not disturbed and not stale and not away:
            env.probe("complete diff")
            if "-d" in case["flags"]:
                ok = code in (0, 1)
            else:
                ok = code == 0
            if not ok:
                bad("exit", "exit %s: %s" % (code, short(r.err[0])))


class C14(Prop):
    """Style discovery."""
    id = "C14"
    quick = 8000
    thorough = 160000

    def case(self, r, env):
        m = Maker(r)
        depth = r.weighted([(8, r.range(0, 5)), (1, r.range(6, 20)),
                            (1, r.range(20, 80))])
        comps = ["d%d" % i for i in range(depth)]
        cwd = "/w" + "".join("/" + c for c in comps)
        t = r.weighted([(3, m.known), (4, lambda: m.corpus(
            lambda n: n.startswith(("valid", "style", "simple"))))])()
        t["path"], t["arg"] = "/src/t.c", "/src/t.c"
        t["want"] = None
        places = ["/"] + ["/w" + "".join("/" + c for c in comps[:i])
                          for i in range(depth + 1)]
        c = {"flags": r.pick([[], [], ["-s"], ["-i"]]), "targets": [t],
             "files": {}, "cwd": cwd, "knobs": {"rng": r.below(1 << 40)},
             "programs": {}, "faults": [], "styles": {}}
        for p in r.sample(places, r.range(0, 3)):
            c["styles"][p.rstrip("/") + "/.clang-format"] = self.style(r, c)
        c["order"] = [p.rstrip("/") + "/.clang-format"
                      for p in reversed(places)]
        if r.chance(1, 3):
            c["knobs"]["mounts"] = r.sample(places[1:], r.range(1, 3))
        # What should have no influence.
        if r.chance(1, 3):
            for p in r.sample(places, r.range(1, 3)):
                c["files"][p.rstrip("/") + "/.git"] = r.pick([
                    {"dir": 0o755}, {"data": "gitdir: /x\n"}])
        if r.chance(1, 2):
            decoy = r.pick(gen.styles())
            for p in r.sample(["/src/.clang-format", "/home/.clang-format",
                               "/etc/clang-format", "/src/clang-format",
                               cwd + "/_clang-format", cwd + "/clang-format",
                               cwd + "/.clang-format~", "/tmp/.clang-format",
                               cwd + "/child/.clang-format",
                               cwd + "/.clang-format.orig"], r.range(1, 4)):
                c["files"][p] = {"data": decoy}
        if r.chance(1, 2):
            c["proc"] = {"env": dict(gen.randenv(r), HOME=r.pick(
                ["/home", "/", "/src", r.pick(places)]))}
        if r.chance(1, 4) and c["styles"]:
            c["linked"] = r.sample(sorted(c["styles"]), 1)
        helper = c["programs"].get("clang-format")
        if helper:
            helper["chunk"] = r.pick([65536, 4096, 100, 1000])
            helper["mode"] = r.pick(["ok", "ok", "fail", "killed", "absent"])
            helper["cut"] = r.pick([None, r.below(len(helper["out"]) + 1)])
            helper["sig"] = r.pick([9, 11, 15])
            c["knobs"]["pipecap"] = r.pick([65536, 4096, 64])
            c["sched_seed"] = r.below(1 << 30)
        if r.chance(1, 3):
            c["knobs"]["rchunk"] = chunks(r)
        if r.chance(1, 6) and c["styles"]:
            p = r.pick(sorted(c["styles"]))
            c["unreadable"] = [p]
            c["unreadhow"] = r.pick(["mode", "mode", "dir", "loop"])
            c["proc"] = dict(c.get("proc", {}), uid=1000, gid=100)
            c["flags"] = []
        elif r.chance(1, 2):
            log = env.run(self.scen(c)).oplog
            f = pick_fault(r, log, ["errno", "errno", "short", "kill"],
                           lambda x: (x[0] > 0 or x[1] not in ("EXIT",)) and
                           (x[1] != "OPENAT" or x[3] == b".clang-format" or
                            r.chance(1, 4)))
            if f and f["kind"] == "kill" and f["p"] == 0:
                f = None
            if f:
                c["faults"].append(f)
        return c

    def style(self, r, c):
        s = r.pick(gen.styles())
        k = r.below(4)
        if k == 0:
            b = r.pick(sorted(gen.dumps()))
            c["programs"]["clang-format"] = {"out": gen.dumps()[b],
                                             "style": b}
            return "BasedOnStyle: %s\n" % b + (s if r.chance(1, 2) else "")
        if k == 1:
            return "BasedOnStyle: OpenBSD\n" + s
        return s

    def scen(self, case):
        sc = scenario(case)
        for i, (p, s) in enumerate(sorted(case["styles"].items())):
            f = {"data": s, "mode": 0o644}
            if p in case.get("unreadable", ()):
                f = {"mode": {"data": s, "mode": 0}, "dir": {"dir": 0o755},
                     "loop": {"link": ".clang-format"}}[
                         case.get("unreadhow", "mode")]
            elif p in case.get("linked", ()):
                sc["files"]["/styles/s%d" % i] = f
                f = {"link": "/styles/s%d" % i}
            sc["files"][p] = f
        return sc

    def explicit(self, env, case, style, helper):
        """Fault free run with -c; style None: nothing anywhere."""
        c = {"flags": [f for f in case["flags"] if f != "-i"],
             "targets": case["targets"], "files": {}, "cwd": "/plain",
             "programs": {}}
        if style is not None:
            c["files"]["/s"] = {"data": style}
            c["flags"] = c["flags"] + ["-c", "/s"]
        if helper and "clang-format" in case["programs"]:
            h = case["programs"]["clang-format"]
            c["programs"]["clang-format"] = {"out": h["out"],
                                             "style": h.get("style")}
        r = env.run(scenario(c))
        return r.code(), r.out[0]

    def judge(self, case, env):
        near = next((p for p in case["order"] if p in case["styles"]), None)
        style = case["styles"].get(near)
        r = env.run(self.scen(case))
        no_crash(r)
        code = r.code()
        if code is None:
            bad("signal", "terminated by signal %d" % (r.status() & 0x7f))
        src = case["targets"][0]["src"].encode("latin-1")
        got = r.content("/src/t.c") if "-i" in case["flags"] else r.out[0]
        ref = self.explicit(env, case, style, True)
        none = self.explicit(env, case, style, False)
        based = style is not None and "BasedOnStyle: " in style and \
            "OpenBSD" not in style
        # Did the helper deliver?
        kids = [p for p in r.procs if not p.main]
        delivered = any(p.exec_name and p.status == 0 for p in kids)
        faulted = [f for f in r.fired if f[0] in ("errno", "kill")]
        if code != 0:
            if not faulted and near not in case.get("unreadable", ()) and \
                    ref[0] == 0:
                bad("failure", "exit %d: %s" % (code, short(r.err[0])))
            if "-i" in case["flags"] and got != src:
                # One target: a failure leaves it alone.
                bad("touched", "exit %d but the file changed" % code)
            if "-i" not in case["flags"] and got and not faulted:
                bad("output", "exit %d with output" % code)
            env.probe("refused")
            return
        if near in case.get("unreadable", ()):
            bad("ignored", "%s cannot be read but exit is 0" % near)
        # Was the style file's own open or read made to fail?
        for f in case["faults"]:
            for x in r.oplog:
                if x[:3] == (f["p"], f["op"], f["n"]) and f["kind"] == "errno":
                    if x[1] in ("OPENAT", "OPEN") and \
                            x[3].endswith(b".clang-format") and near:
                        # Only if this is where it was to be found.
                        if self.is_near(r, x, case):
                            bad("ignored", "the style file could not be "
                                "opened but exit is 0")
        # Directories need not be readable, but other trouble is trouble.
        direrr = any(
            x[:3] == (f["p"], f["op"], f["n"]) and
            x[1] in ("OPEN", "OPENAT", "STAT", "LSTAT", "FSTATAT", "ACCESS",
                     "REALPATH", "GETCWD") and f.get("errno") == E.EACCES
            for f in case["faults"] for x in r.oplog) and faulted
        allowed = []
        if based:
            if not delivered:
                allowed.append(none)
            else:
                allowed.append(ref)
                if faulted:
                    allowed.append(none)
        else:
            allowed.append(ref)
        if direrr:
            # The search itself failed: as if there was nothing further up.
            allowed.append(self.explicit(env, case, None, False))
            for p in case["styles"].values():
                allowed.append(self.explicit(env, case, p, False))
        if ref[0] == 0 and got not in [a[1] for a in allowed]:
            bad("style", "formatted by another style than %s; helper %s" %
                (near, "delivered" if delivered else "failed"))
        b, _, own = (style or "")[len("BasedOnStyle: "):].partition("\n")
        if based and not own and delivered and not faulted and ref[0] == 0:
            # The same without help.
            direct = self.explicit(env, case, "".join(
                l + "\n" for l in gen.dumps()[b].split("\n")
                if not l.startswith(("---", "..."))), False)
            if got != direct[1]:
                bad("base", "not formatted by what %s stands for" % b)
            env.probe("same as explicit options")
        for p in kids:
            if not p.reaped and not faulted:
                bad("zombie", "helper not waited for")
        env.probe("based" if based else "plain" if near else "default")
        if based:
            env.probe("delivered" if delivered else "not delivered")

    @staticmethod
    def is_near(r, x, case):
        """Is this failing open the one of the nearest style file?"""
        n = 0
        for y in r.oplog:
            if y[0] == 0 and y[1] in ("OPEN", "OPENAT") and \
                    isinstance(y[3], bytes) and y[3].endswith(b".clang-format"):
                if y is x:
                    break
                n += 1
        return n < len(case["order"]) and \
            case["order"][n] in case["styles"] and \
            not any(case["order"][i] in case["styles"] for i in range(n))


class C17(Prop):
    """Failure is never silent."""
    id = "C17"
    quick = 25000
    thorough = 500000

    def case(self, r, env):
        m = Maker(r)
        fl = r.pick([[], [], ["-s"], ["-i"], ["-i"], ["-d"], ["-d"], ["-D"],
                     ["-D", "-i"], ["-D", "-d"], ["-i", "-s"]])
        ts = dedup([r.weighted([(4, m.any), (2, m.torn), (1, m.missing),
                                (1, m.wrong)])()
                    for _ in range(r.weighted([(5, 1), (1, 2)]))])
        c = {"flags": fl, "targets": ts, "files": {},
             "knobs": {"rng": r.below(1 << 40)}, "faults": [],
             "programs": {"diff": {}}, "sched_seed": r.below(1 << 30)}
        if r.chance(1, 8):
            c["knobs"]["disk_free"] = r.range(0, 3000)
        if r.chance(1, 10):
            c["knobs"]["fdlimit"] = r.range(3, 7)
        if r.chance(1, 5):
            b = r.pick(sorted(gen.dumps()))
            c["files"]["/w/.clang-format"] = {
                "data": r.pick(["BasedOnStyle: %s\n" % b,
                                r.pick(gen.styles())])}
            c["programs"]["clang-format"] = {
                "out": gen.dumps()[b], "style": b,
                "mode": r.pick(["ok", "ok", "fail", "absent", "killed"])}
        if r.chance(1, 8):
            c["programs"]["diff"]["mode"] = r.pick(["absent", "fail"])
        if r.chance(1, 3):
            c["alloc"] = {"oom": [r.range(1, 600)], "sticky": r.below(2)}
        if r.chance(1, 8):
            c["cutdiff"] = r.below(400)
        log = env.run(self.scen(c)).oplog
        for _ in range(r.weighted([(2, 0), (6, 1), (1, 2)])):
            f = pick_fault(r, log, ["errno", "errno", "kill"],
                           lambda x: not (x[1] == "WRITE" and x[3] == 2))
            if f and f["kind"] == "kill" and f["p"] == 0:
                continue
            if f and f["op"] != "WRITE":
                lasts(r, f)
            if f:
                c["faults"].append(f)
        return c

    def scen(self, case):
        sc = scenario(case)
        if "-D" in case["flags"]:
            p = sc["procs"][0]
            p["argv"] = ["knfmt"] + case["flags"]
            d = whole_diff(case["targets"])
            p["stdin"] = {"data": d[:case.get("cutdiff", len(d))]}
        return sc

    def judge(self, case, env):
        sc = self.scen(case)
        r = env.run(sc)
        no_crash(r)
        code = r.code()
        if code is None or code == 0:
            return
        env.probe("failures")
        for f in case["faults"]:
            if f["op"] == "WRITE" and any(
                    x[:3] == (f["p"], f["op"], f["n"]) and x[3] == 2
                    for x in r.oplog):
                return
        if r.err[0]:
            return
        if "-d" in case["flags"] and r.out[0]:
            return
        bad("silent", "exit %d without any message; %s" %
            (code, r.fired[:3]))


class C25(Prop):
    """Missing and failing standard streams."""
    id = "C25"
    quick = 9000
    thorough = 180000

    def case(self, r, env):
        m = Maker(r)
        fl = r.pick([["-i"], ["-i"], ["-i"], ["-i", "-s"], [], [], ["-s"],
                     ["-d"], ["-D"], ["-D", "-i"], ["-D", "-i"], ["-D", "-d"]])
        ts = dedup([r.weighted([(6, m.any), (2, m.known), (1, m.wrong),
                                (1, m.missing)])()
                    for _ in range(r.weighted([(3, 1), (3, 2), (2, 4)]))])
        c = {"flags": fl, "targets": ts, "files": {},
             "knobs": {"rng": r.below(1 << 40)}, "faults": [],
             "programs": {"diff": {}}, "streams": {}}
        if fl in ([], ["-s"]) and r.chance(1, 4) and \
                ts[0]["kind"] not in ("missing", "dir"):
            c["targets"] = ts[:1]
            c["filter"] = 1
        if r.chance(1, 5):
            b = r.pick(sorted(gen.dumps()))
            c["files"]["/w/.clang-format"] = {"data": "BasedOnStyle: %s\n" % b}
            c["programs"]["clang-format"] = {
                "out": gen.dumps()[b], "style": b,
                "mode": r.pick(["ok", "ok", "fail"])}
        if r.chance(1, 2):
            for i in r.pick([(0,), (1,), (2,), (0, 1), (0, 2), (1, 2),
                             (0, 1, 2)]):
                c["streams"][str(i)] = "closed"
        for i in (1, 2):
            if not c["streams"] or r.chance(1, 4):
                n = r.pick([0, 0, 1, 20, r.below(3000)])
                c["streams"][str(i)] = r.pick([
                    "closed", {"limit": n},
                    {"fail": [n, r.pick([E.EIO, E.ENOSPC, E.EDQUOT])]}])
        c["knobs"]["sigpipe_ign"] = r.below(2)
        for t in c["targets"]:
            if r.chance(1, 3):
                t["mode"] = r.pick([0o600, 0o755, 0o664, 0o444])
                t["uid"], t["gid"] = r.pick([(0, 0), (0, 5), (7, 0), (7, 5)])
        if r.chance(1, 2):
            log = env.run(self.scen(c, False)).oplog
            f = pick_fault(r, log, ["errno"], lambda x: x[0] == 0 and x[1] in (
                "FCHMOD", "FCHOWN", "FSYNC", "RENAME", "FSTAT", "STAT", "READ",
                "MKSTEMP", "CHMOD", "CHOWN", "CLOSE", "OPEN"))
            if f:
                c["faults"].append(lasts(r, f))
        return c

    def scen(self, case, trouble=True):
        sc = scenario(case)
        p = sc["procs"][0]
        if "-D" in case["flags"]:
            p["argv"] = ["knfmt"] + case["flags"]
            p["stdin"] = {"data": whole_diff(case["targets"])}
        elif case.get("filter"):
            t = case["targets"][0]
            sc["files"].pop(t["path"], None)
            p["argv"] = ["knfmt"] + case["flags"]
            p["stdin"] = {"data": t["src"], "pipe": 1}
        if trouble:
            for i, s in case["streams"].items():
                n = ("stdin", "stdout", "stderr")[int(i)]
                p[n] = (None if i == "0" else {"closed": 1}) \
                    if s == "closed" else s
        return sc

    @staticmethod
    def names(k):
        return {p: v[:1] + v[2:] for p, v in snapshot(k).items()}

    def judge(self, case, env):
        start = [None]

        def inv(k, sim):
            if start[0] is None:
                start[0] = self.names(k)
            return None
        ref = env.run(self.scen(case, False), ref=True)
        if ref.deadlock or ref.livelock or ref.code() is None:
            return          # for others to judge
        r = env.run(self.scen(case), inv)
        no_crash(r)
        if start[0] is None:
            start[0] = self.names(r.k)
        st = case["streams"]
        # Standard input counts only if it is asked for.
        input_ok = st.get("0") is None or not (
            case.get("filter") or "-D" in case["flags"])
        s1, s2 = st.get("1"), st.get("2")
        for i in st:
            env.probe("%s %s" % (("stdin", "stdout", "stderr")[int(i)],
                                 st[i] if st[i] == "closed" else
                                 sorted(st[i])[0]))
        now, want = self.names(r.k), self.names(ref.k)
        if not input_ok:
            want = start[0]
        code = r.code()
        if code is None:
            if r.status() & 0x7f != 13 or case["knobs"]["sigpipe_ign"] or \
                    not any("limit" in (s or "") for s in (s1, s2)):
                bad("signal", "terminated by signal %d" % (r.status() & 0x7f))
            env.probe("SIGPIPE")
        for p in sorted(set(now) | set(want)):
            if now.get(p) == want.get(p):
                continue
            if code is None and (now.get(p) == start[0].get(p) or
                                 p not in want and p not in start[0]):
                continue
            bad("files differ", "%s: %s, instead of %s" % (
                p, *(short(x[-1]) + " mode %o" % x[1] if x else "absent"
                     for x in (now.get(p), want.get(p)))))
        if not input_ok:
            if code == 0:
                bad("false success", "exit 0 although there was no input")
            if r.out[0]:
                bad("spurious", "output without input: %s" % short(r.out[0]))
            return
        if not ref.out[0].startswith(r.out[0]) if s1 else \
                code is not None and ref.out[0] != r.out[0]:
            bad("garbled", "standard output is %s, instead of %s" %
                (short(r.out[0]), short(ref.out[0])))
        if code is None:
            return
        lost = "-d" not in case["flags"] and len(r.out[0]) < len(ref.out[0])
        if code == 0 and (lost or ref.code()):
            bad("false success", "exit 0, with all streams %d; %d of %d bytes "
                "were delivered" % (ref.code(), len(r.out[0]),
                                    len(ref.out[0])))
        if code and not lost and not ref.code():
            bad("false failure", "exit %d although nothing was lost: %s" %
                (code, short(r.err[0])))
        if not s1 and not (ref.err[0].startswith(r.err[0]) if s2 else
                           ref.err[0] == r.err[0]):
            bad("messages", "standard error has %s, instead of %s" %
                (short(r.err[0]), short(ref.err[0])))


class C26(Prop):
    """Command lines and tracing."""
    id = "C26"
    quick = 7000
    thorough = 180000
    variants = ("plain", "asan")
    TRACE = "acCdDflpsSt"

    def case(self, r, env):
        m = Maker(r)
        fl = r.pick([["-i"], ["-i"], ["-i", "-s"], [], [], ["-s"], ["-d"],
                     ["-d", "-s"], ["-i", "-d"], ["-D"], ["-D", "-i"],
                     ["-D", "-d"], ["-D", "-s"], ["-D", "-i", "-s"]])
        ts = dedup([r.weighted([(5, m.any), (2, m.known), (1, m.wrong),
                                (1, m.missing), (2, m.torn), (3, m.corpus)])()
                    for _ in range(r.weighted([(5, 1), (3, 2), (1, 4)]))])
        c = {"what": r.weighted([(2, "misuse"), (3, "spelling"),
                                 (4, "trace")]),
             "flags": fl, "targets": ts, "files": {}, "faults": [],
             "knobs": {"rng": r.below(1 << 40)}, "alloc": randalloc_(r),
             "programs": {"diff": {}}, "style": 0,
             "variant": r.pick(["plain", "plain", "plain", "asan"])}
        if r.chance(1, 4):
            c["style"] = 1
            c["files"]["/w/st"] = {"data": r.pick([
                "BasedOnStyle: LLVM\nColumnLimit: 60\n", "IndentWidth: 3\n",
                "AlignAfterOpenBracket: Align\nUseTab: Never\n", "",
                "ColumnLimit: x\n", "BasedOnStyle: [\n"])}
        if r.chance(1, 4):
            c["files"]["/w/.clang-format"] = {"data": r.pick([
                "UseTab: Never\nIndentWidth: 2\n", "ColumnLimit: 100\n",
                "SortIncludes: true\n", "BasedOnStyle: Google\n"])}
        c["programs"]["clang-format"] = {
            "out": gen.dumps()["Google"], "style": "Google",
            "mode": r.pick(["ok", "ok", "fail", "absent"])}
        if fl in ([], ["-s"]) and r.chance(1, 4) and \
                ts[0]["kind"] not in ("missing", "dir"):
            c["targets"] = ts[:1]
            c["filter"] = 1
        opts = self.plain(c)
        sep = []
        if c["what"] == "misuse":
            k = r.below(6)
            if k == 0:
                o = "-" + r.pick("abefghjklmnopqruvwxyzABCEFGHIST0129:?=W")
                opts.insert(r.below(len(opts) + 1), [o])
            elif k == 1:
                # The letter is not the first of its group.
                o = "-" + r.pick(["i", "s", "d", "ds"]) + r.pick("xhqVT1")
                opts.insert(r.below(len(opts) + 1), [o])
            elif k == 2:
                o = r.pick("zi,0 -x") if r.chance(1, 2) else \
                    r.pick(self.TRACE) + r.pick("zi, -x") + r.pick(["", "a"])
                opts.insert(r.below(len(opts) + 1),
                            r.pick([["-t" + o], ["-t", o]]))
            elif k == 3:
                # An argument is missing.
                opts.append([r.pick(["-c", "-t", "-sc", "-dt"])])
                c["nofiles"] = 1
            elif k == 4:
                opts = [o for o in opts if o[0] != "-D"]
                opts.insert(r.below(len(opts) + 1), [r.pick(["-D", "-D",
                                                             "-sD", "-Dd"])])
                c["named"] = 1
                c.pop("filter", 0)
            else:
                opts = [o for o in opts if o[0] not in ("-D", "-i")]
                opts.insert(r.below(len(opts) + 1), [r.pick(["-i", "-i",
                                                             "-is", "-di"])])
                c["nofiles"] = 1
            if r.chance(1, 5):
                c["stderr"] = r.pick([{"closed": 1}, {"fail": [
                    r.pick([0, 1, 10]), E.EIO]}])
        if c["what"] == "trace":
            # Every message is a call.
            c["maxsteps"] = 300000
            if r.chance(1, 8):
                n = r.pick([5, 20, 20, 35])
                ts[0] = dict(m.known(), name="nested", kind="nested",
                             src="int\nf(void)\n{\n\treturn %sa%s;\n}\n" % (
                                 "(" * n, " + b)" * n))
                c["targets"] = ts = dedup(ts)[:len(c["targets"])]
            for t in ts:
                if len(t.get("src", "")) > r.pick([800, 1500, 1500, 5000]):
                    t.update(src=t["src"][:r.below(1200)], kind="torn",
                             name="truncated")
            for _ in range(r.weighted([(4, 1), (1, 2)])):
                n = r.weighted([(3, 1), (2, 2), (2, 4)])
                o = r.pick(["a", "", "a"]) if r.chance(1, 3) else \
                    "".join(r.pick(self.TRACE) for _ in range(n))
                opts.insert(r.below(len(opts) + 1),
                            ["-t", o] if r.chance(1, 2) or not o
                            else ["-t" + o])
            if r.chance(1, 4):
                c["stderr"] = r.pick([{"closed": 1}, {"fail": [
                    r.pick([0, 1, 99, r.below(20000)]),
                    r.pick([E.EIO, E.ENOSPC])]}])
        if c["what"] == "spelling" or r.chance(1, 3):
            opts = self.spell(r, opts)
            if c["what"] != "misuse" and r.chance(1, 3):
                sep = ["--"]
        c["argv"] = [a for o in opts for a in o] + sep
        if c["what"] != "misuse" and r.chance(1, 3):
            log = env.run(self.scen(c, False)).oplog
            f = pick_fault(r, log, ["errno", "errno", "kill"],
                           lambda x: x[0] == 0 and x[1] not in
                           ("WRITE", "EXIT") and x[1] in FSOPS)
            if f:
                c["faults"].append(lasts(r, f) if f["kind"] == "errno" else f)
        return c

    @staticmethod
    def plain(c):
        return [[f] for f in c["flags"]] + \
            ([["-c", "/w/st"]] if c["style"] else [])

    @staticmethod
    def spell(r, opts):
        """The same options, written otherwise."""
        last = opts[-1:] if opts and opts[-1][0][-1] in "ct" and \
            len(opts[-1]) == 1 and len(opts[-1][0]) <= 3 else []
        opts = opts[:len(opts) - len(last)]
        o = [list(x) for x in opts]
        for x in opts:
            if len(x) == 1 and x[0] in ("-i", "-s", "-d", "-D") and \
                    r.chance(1, 4):
                o.append(list(x))
        o = r.sample(o, len(o))
        res = []
        for x in o:
            if len(x) == 2 and x[1] and r.chance(1, 2):
                x = [x[0] + x[1]]
            # Behind letters that take no argument.
            if res and len(res[-1]) == 1 and set(res[-1][0][1:]) <= \
                    set("isdD") and r.chance(1, 2):
                x = [res.pop()[0] + x[0][1:]] + x[1:]
            res.append(x)
        return res + last

    def scen(self, case, own=True):
        sc = scenario(case)
        p = sc["procs"][0]
        av = case["argv"] if own else [a for o in self.plain(case) for a in o]
        names = [t["arg"] for t in case["targets"]]
        if "-D" in case["flags"]:
            names = []
            p["stdin"] = {"data": whole_diff(case["targets"])}
        if case.get("filter"):
            t = case["targets"][0]
            sc["files"].pop(t["path"], None)
            names = []
            p["stdin"] = {"data": t["src"], "pipe": 1}
        if case.get("named"):
            names = [t["arg"] for t in case["targets"]]
        if case.get("nofiles"):
            names = []
        p["argv"] = ["knfmt"] + av + names
        if own and case.get("stderr"):
            p["stderr"] = case["stderr"]
        return sc

    def judge(self, case, env):
        what = case["what"]
        env.probe(what)
        av = " ".join(case["argv"])
        if what == "misuse":
            start = {}

            def inv(k, sim):
                if not start:
                    start.update(snapshot(k))
                elif snapshot(k) != start:
                    return "touched: files changed although %r is refused" % av
                return None
            r = env.run(self.scen(case), inv)
            if r.violation:
                bad(*r.violation.split(": ", 1))
            no_crash(r)
            if r.code() is None:
                bad("signal", "terminated by signal %d" % (r.status() & 0x7f))
            if r.code() == 0:
                bad("accepted", "%r is accepted" % av)
            if r.out[0]:
                bad("output", "%r is refused, with output %s" %
                    (av, short(r.out[0])))
            if not r.err[0] and not case.get("stderr"):
                bad("silent", "%r is refused without a message" % av)
            return
        ref = env.run(self.scen(case, False), ref=True)
        if ref.deadlock or ref.livelock or any(p.crash for p in ref.procs):
            return          # for others to judge
        r = env.run(self.scen(case))
        if r.livelock and what == "trace":
            # Tracing long expressions takes long.
            env.probe("too much to trace")
            return
        no_crash(r)
        how = "with %r, instead of %r" % (av, " ".join(
            a for o in self.plain(case) for a in o))
        if r.status() != ref.status():
            bad("status", "%d %s: %d; %s" % (r.status(), how, ref.status(),
                                             short(r.err[0])))
        now, want = C25.names(r.k), C25.names(ref.k)
        for p in sorted(set(now) | set(want)):
            if now.get(p) != want.get(p):
                bad("files differ", "%s: %s %s: %s" % (
                    p, short(now[p][-1]) if p in now else "absent", how,
                    short(want[p][-1]) if p in want else "absent"))
        if r.out[0] != ref.out[0]:
            bad("output", "%s %s: %s" % (short(r.out[0]), how,
                                         short(ref.out[0])))
        if case.get("stderr"):
            return
        if what == "spelling":
            if r.err[0] != ref.err[0]:
                bad("messages", "%s %s: %s" % (short(r.err[0]), how,
                                               short(ref.err[0])))
            return
        # A message may say where in knfmt it comes from as well.
        for x in ref.err[0].split(b"\n"):
            if x not in r.err[0]:
                bad("messages", "%s is missing %s" % (short(x), how))
        if r.err[0] != ref.err[0]:
            env.probe("traced")

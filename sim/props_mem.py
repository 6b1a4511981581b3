"""Memory: failing allocations, layout, damaged input."""
import re

import gen
import programs
from base import *
from props_fs import dedup, snapshot, whole_diff
from props_io import concat_ok


def with_diff(case, sc):
    if "-D" in case["flags"]:
        p = sc["procs"][0]
        p["argv"] = ["knfmt"] + case["flags"]
        p["stdin"] = {"data": case.get("diff") if case.get("diff") is not None
                      else whole_diff(case["targets"])}
    return sc


class C10(Prop):
    """Memory runs out."""
    id = "C10"
    variants = ("plain", "asan")
    quick = 10000
    thorough = 200000

    def case(self, r, env):
        m = Maker(r)
        fl = r.pick([[], [], ["-s"], ["-s"], ["-i"], ["-i"], ["-i", "-s"],
                     ["-d"], ["-d", "-s"], ["-D"], ["-D", "-i"], ["-D", "-d"]])
        ts = dedup([r.weighted([(3, m.known), (2, m.boundary),
                                (1, lambda: m.known(noise=False)),
                                (5, lambda: m.corpus(
                                    lambda n: not n.startswith("error"))),
                                (1, m.torn), (1, m.includes), (1, m.long),
                                (2, m.words)])()
                    for _ in range(r.weighted([(5, 1), (2, 2), (1, 3)]))])
        if r.chance(1, 3):
            for t in ts[:1]:
                u = m.corpus(lambda n: n.startswith(
                    ("simple", "diff") if "-s" in fl else ("style", "diff")))
                if "-s" in fl and r.chance(1, 2):
                    u = m.includes()
                t.update(src=u["src"], want=None, kind="corpus")
        c = {"flags": fl, "targets": ts, "files": {}, "faults": [],
             "knobs": {"rng": r.below(1 << 40)}, "programs": {"diff": {}},
             "sched_seed": r.below(1 << 30)}
        if r.chance(1, 4):
            b = r.pick(sorted(gen.dumps()))
            c["files"]["/w/.clang-format"] = {
                "data": r.pick(["BasedOnStyle: %s\n" % b + r.pick(gen.styles()),
                                r.pick(gen.styles())])}
            c["programs"]["clang-format"] = {"out": gen.dumps()[b],
                                             "style": b}
        ref = env.run(dict(self.scen(c), sites=1))
        n = max(1, ref.nalloc)
        k = r.below(8)
        # What an allocation is for matters more than how many there are.
        at = {}
        for i, h in enumerate(ref.sites):
            at.setdefault(h, []).append(i + 1)
        at = [at[h] for h in sorted(at, key=lambda h: at[h][0])]
        one = (lambda: r.range(1, n)) if not at or r.chance(1, 4) else \
            (lambda: r.pick(r.pick(at)))
        env.probe("allocation sites", len(at))
        if k == 0:
            c["alloc"] = {"limit": r.pick([16, 100, 1000, 4096, 5000, 8192,
                                           20000, 65536, 70000])}
        else:
            # Any allocation the fault free run makes, from there on or once.
            c["alloc"] = {"oom": sorted(one() for _ in range(
                r.weighted([(5, 1), (1, 3)]))), "sticky": r.chance(1, 3)}
        if r.chance(1, 8):
            c["variant"] = "asan"
        return c

    def scen(self, case):
        return with_diff(case, scenario(case))

    def judge(self, case, env):
        c0 = dict(case, alloc={}, variant="plain")
        ref = env.run(self.scen(c0))
        no_crash(ref)
        r = env.run(self.scen(case))
        no_crash(r)
        code = r.code()
        if code is None:
            bad("signal", "terminated by signal %d" % (r.status() & 0x7f))
        if not r.oomfired:
            env.probe("enough memory")
        else:
            env.probe("out of memory, exit %d" % code)
        writes = "-i" in case["flags"] and "-d" not in case["flags"]
        for t in case["targets"]:
            src = t["src"].encode("latin-1")
            got = r.content(t["path"])
            full = ref.content(t["path"])
            if got == full:
                continue
            if got != src:
                bad("content", "%s holds neither the original nor what it "
                    "should: %s" % (t["path"], short(got)))
            if code == 0:
                bad("false success", "%s was not formatted but exit is 0" %
                    t["path"])
        if code == 0:
            if ref.code() != 0:
                bad("false success", "exit 0, with enough memory %s" %
                    ref.code())
            if r.out[0] != ref.out[0]:
                bad("output", "exit 0 but the output is %s" % short(r.out[0]))
            return
        if not r.oomfired and code != ref.code():
            bad("exit", "exit %d without a failed allocation" % code)
        if r.oomfired and not r.err[0] and not (
                "-d" in case["flags"] and r.out[0]):
            bad("silent", "exit %d without any message" % code)
        if "-d" not in case["flags"]:
            parts = self.parts(case, env)
            if parts is not None and not concat_ok(r.out[0], parts, True):
                bad("output", "not made of the formatted files: %s" %
                    short(r.out[0]))
        elif not ref.out[0].startswith(r.out[0]) and len(case["targets"]) == 1:
            bad("output", "not a prefix of the diff: %s" % short(r.out[0]))
        if r.oomfired:
            extra = sorted(set(p for p in r.k.files() if
                               r.k.files()[p].kind != "d") -
                           set(p for p in ref.k.files()))
            if extra:
                bad("leftover", "%s remained" % " ".join(extra))

    def parts(self, case, env):
        if "-i" in case["flags"]:
            return []
        out = []
        for t in case["targets"]:
            x = env.run(self.scen(dict(case, alloc={}, variant="plain",
                                       targets=[t])))
            out.append(x.out[0])
        return out


def repeated(r):
    """Declarations made more than once, told apart by what follows: the
    order among them is not given by what -s sorts by."""
    k = r.range(1, 5)
    out = ["#include <%s.h>" % r.pick("abc") for _ in range(r.below(5))]
    out += [""] if out else []
    for i in range(r.range(2, 30)):
        out.append("%s a%d;%s" % (r.pick(["struct", "struct", "union"]),
                                  r.below(k), " /* %d */" % i
                                  if r.chance(3, 4) else ""))
    return "\n".join(out) + "\n"


class C11(Prop):
    """The same input always gives the same result."""
    id = "C11"
    variants = ("plain", "zero", "pattern", "asan")
    quick = 4000
    thorough = 80000

    def case(self, r, env):
        m = Maker(r)
        fl = r.pick([[], [], ["-s"], ["-s"], ["-i"], ["-d"], ["-D"],
                     ["-D", "-s"]])
        n = r.weighted([(3, 1), (3, 3), (2, 8)])
        ts = dedup([r.weighted([(2, m.known), (1, m.boundary), (7, m.corpus),
                                (3, m.torn), (1, m.twisted), (1, m.long)])()
                    for _ in range(n)])
        if "-s" in fl:
            for t in ts:
                if r.chance(1, 2):
                    u = m.corpus(lambda x: x.startswith("simple")) \
                        if r.chance(2, 3) else m.includes()
                    t.update(src=u["src"], want=None, kind="corpus")
                elif r.chance(1, 6):
                    t.update(src=repeated(r), want=None, kind="repeated")
        c = {"flags": fl, "targets": ts, "files": {}, "faults": [],
             "knobs": {"rng": r.below(1 << 40)}, "programs": {"diff": {}}}
        if "-D" in fl and r.chance(1, 2):
            nm, p, s = r.pick(gen.patches())
            c["targets"] = [{"path": "/w/" + nm, "arg": nm, "src": s,
                             "want": None, "kind": "corpus"}]
            c["diff"] = p
            if r.chance(1, 3):
                c["diff"] = gen.tear(r, p.encode("latin-1"))[0].decode(
                    "latin-1")
        if r.chance(1, 3):
            s = r.pick(gen.styles())
            if r.chance(1, 4):
                s = gen.tear(r, s.encode("latin-1"))[0].decode("latin-1")
            c["files"]["/w/.clang-format"] = {"data": gen.clamp(s)}
        c["worlds"] = []
        for _ in range(r.range(2, 4)):
            w = {"alloc": gen.randalloc(r, sum(len(t["src"]) for t in
                                               c["targets"])), "variant": r.weighted(
                [(4, "plain"), (3, "zero"), (3, "pattern"), (1, "asan")])}
            w["alloc"]["cpu"] = r.below(4)
            w["rng"] = r.below(1 << 40)
            w["pid"] = r.range(2, 30000)
            w["epoch"] = r.pick([0, 1, 951782400, 1700000000, 4102444800,
                                 r.below(1 << 32)])
            w["umask"] = r.pick([0, 0o022, 0o027, 0o077])
            w["env"] = gen.randenv(r)
            w["tty"] = r.pick([None, None, 20, 80, 200])
            w["uid"] = 0 if "-i" in fl else r.pick([0, 1000])
            c["worlds"].append(w)
        return c

    def scen(self, case, w):
        c = dict(case)
        if w:
            c["alloc"], c["variant"] = w["alloc"], w["variant"]
            c["knobs"] = dict(case["knobs"], rng=w["rng"], pid=w["pid"],
                              epoch=w["epoch"])
            c["proc"] = {k: w[k] for k in ("umask", "env", "tty", "uid")}
        return with_diff(case, scenario(c))

    def judge(self, case, env):
        a = env.run(self.scen(case, None))
        no_crash(a)
        for w in case["worlds"]:
            b = env.run(self.scen(case, w))
            no_crash(b)
            if a.code() != b.code():
                bad("exit", "%s and %s" % (a.code(), b.code()))
            if a.out[0] != b.out[0]:
                bad("output", "differs: %s" % self.where(a.out[0], b.out[0]))
            if a.err[0] != b.err[0]:
                bad("diagnostics", "differ: %s" % self.where(a.err[0],
                                                             b.err[0]))
            for t in case["targets"]:
                if a.content(t["path"]) != b.content(t["path"]):
                    bad("content", "%s differs" % t["path"])
                x, y = a.k.lookup(t["path"]), b.k.lookup(t["path"])
                if x is not None and y is not None and \
                        (x.mode, x.uid, x.gid) != (y.mode, y.uid, y.gid):
                    bad("attributes", "of %s differ: %o and %o" % (
                        t["path"], x.mode, y.mode))
            env.probe("world " + w["variant"])

    @staticmethod
    def where(x, y):
        i = 0
        while i < min(len(x), len(y)) and x[i] == y[i]:
            i += 1
        i = max(0, i - 40)
        return "%s and %s" % (short(x[i:]), short(y[i:]))


def words(b):
    """Sorted: include directives may change places."""
    return sorted(re.findall(rb"[A-Za-z0-9_]+", b))


class C15(Prop):
    """Damaged input."""
    id = "C15"
    variants = ("plain", "asan")
    quick = 20000
    thorough = 400000

    def case(self, r, env):
        m = Maker(r)
        what = r.weighted([(7, "source"), (2, "style"), (2, "diff")])
        c = {"what": what, "targets": [], "files": {}, "faults": [],
             "flags": [], "knobs": {"rng": r.below(1 << 40)},
             "programs": {"diff": {}}, "alloc": gen.randalloc(r)}
        if what == "source":
            c["flags"] = r.pick([[], [], ["-s"], ["-i"], ["-i", "-s"], ["-d"]])
            n = r.range(5, 25)
            c["targets"] = dedup([self.torn(r, m) for _ in range(n)])
            if r.chance(1, 4):
                c["files"]["/w/.clang-format"] = {"data": r.pick(gen.styles())}
        elif what == "style":
            s = r.pick(gen.styles() + sorted(gen.dumps().values()))
            s = s + r.pick(["", r.pick(gen.styles())])
            s, how = gen.tear(r, s.encode("latin-1"))
            for _ in range(r.below(3)):
                s, _ = gen.tear(r, s)
            c["files"]["/w/.clang-format"] = {
                "data": gen.clamp(s.decode("latin-1"))}
            c["targets"] = dedup([m.corpus(lambda n: n.startswith(
                ("style", "valid"))) for _ in range(r.range(1, 3))])
            c["flags"] = r.pick([[], ["-i"], ["-s"]])
        else:
            nm, p, s = r.pick(gen.patches())
            c["targets"] = [{"path": "/w/" + nm, "arg": nm, "src": s,
                             "want": None, "kind": "corpus"}]
            for _ in range(r.range(1, 3)):
                p, _ = gen.tear(r, p.encode("latin-1"))
                p = p.decode("latin-1")
            c["diff"] = p
            c["flags"] = r.pick([["-D"], ["-D", "-i"], ["-D", "-d"],
                                 ["-D", "-s"]])
        if r.chance(1, 5):
            c["variant"] = "asan"
        return c

    def torn(self, r, m):
        t = m.torn()
        k = r.below(6)
        s = t["src"].encode("latin-1")
        if k == 0:
            # Damaged more than once.
            for _ in range(r.range(1, 4)):
                s, how = gen.tear(r, s)
            t.update(src=s.decode("latin-1"), name="damaged repeatedly")
        elif k == 1:
            # Two transfers mixed up.
            o = r.pick(gen.corpus())[1]
            i, j = r.below(len(s) + 1), r.below(len(o) + 1)
            t.update(src=(s[:i] + o[j:]).decode("latin-1"), name="spliced")
        elif k <= 3:
            u = m.corpus() if r.chance(2, 3) else m.known()
            n = r.below(len(u["src"]) + 1)
            t.update(src=u["src"][:n], name="truncated")
        if r.chance(1, 5):
            # No conditionals: whatever is taken has to be complete.
            u = m.known()
            s, how = gen.tear(r, u["src"].encode("latin-1"))
            s = s.decode("latin-1")
            if r.chance(1, 3):
                i = r.pick([0, len(s), s.find("\n") + 1, r.below(len(s) + 1)])
                s = s[:i] + r.pick(["\x1a", "\0", "\f", "\x1a\n", "\0\n", "\x04",
                                    "\xff", "\x7f", "\\", "$", "@", "`"]) + s[i:]
            if r.chance(1, 6):
                # All on one line, possibly a long one.
                s = "int x ; " * r.pick([0, 0, 10, 130, 600, 1100, 9000]) + \
                    s.replace("\n", " ") + r.pick(["", "\n", "\nint y;\n"])
            t.update(src=s, name="plain damage", path=u["path"], arg=u["arg"])
        return t

    def scen(self, case):
        return with_diff(case, scenario(case))

    def judge(self, case, env):
        start = {}
        writes = "-i" in case["flags"]
        tpaths = {t["path"] for t in case["targets"]}

        def inv(k, sim):
            if not start:
                start.update(snapshot(k))
                return None
            now = snapshot(k)
            for p, v in start.items():
                if now.get(p) != v and not (writes and p in tpaths and
                                            p in now):
                    return "touched: %s changed at step %d" % (p, k.step)
            return None
        r = env.run(self.scen(case), inv)
        if r.violation:
            cls, msg = r.violation.split(": ", 1)
            bad(cls, msg)
        no_crash(r)
        code = r.code()
        if code not in (0, 1):
            bad("exit", "exit %s" % code)
        extra = sorted(set(snapshot(r.k)) - set(start))
        if extra:
            bad("leftover", "%s remained" % " ".join(extra))
        env.probe("exit %d" % code)
        if case["what"] == "style":
            if code == 0:
                env.probe("style accepted")
            elif not r.err[0]:
                bad("silent", "the style is refused without a message")
            return
        if case["what"] == "diff":
            if code == 1 and not r.err[0] and not ("-d" in case["flags"] and
                                                   r.out[0]):
                bad("silent", "the diff is refused without a message")
            if code == 1 and "-d" not in case["flags"] and r.out[0]:
                pass
            return
        # Each file: refused, with a message and without effect, or taken.
        err = r.err[0]
        refused = 0
        for t in case["targets"]:
            src = t["src"].encode("latin-1")
            arg = t["arg"].encode()
            said = re.search(rb"(^|\n|knfmt: )" + re.escape(arg) + rb":", err)
            got = r.content(t["path"])
            if said:
                refused += 1
                if got != src:
                    bad("refused", "%s is refused but changed" % t["path"])
            elif "-i" in case["flags"] and "-s" not in case["flags"] and \
                    t["name"] in ("truncated", "plain damage"):
                env.probe(t["name"] + " and taken")
                # Damage may split words, but nothing gets lost.
                if (words(got) != words(src) if t["name"] == "truncated" else
                        sorted(b"".join(words(got))) !=
                        sorted(b"".join(words(src)))):
                    bad("lost", "%s is damaged, taken, and part of it is "
                        "lost: %s, was %s" % (t["path"], short(got, 400),
                                              short(src, 400)))
            if "-i" in case["flags"] and not said and got != src and \
                    not got and src.strip(b"\\ \f\t\r\n"):
                bad("lost", "%s became empty" % t["path"])
        if bool(refused) != (code == 1) and "-d" not in case["flags"]:
            bad("exit", "%d files are refused but exit is %d" % (refused, code))
        env.probe("refused", refused)
        env.probe("taken", len(case["targets"]) - refused)

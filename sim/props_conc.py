"""Histories and schedules: resources, concurrency, progress, recovery."""
import errno as E

import gen
import programs
from base import *
from props_fs import FSOPS, dedup, inplace_flags, snapshot, whole_diff
from props_mem import with_diff


def numbered(r, ts):
    """Distinct paths for any number of targets."""
    out = []
    for i, t in enumerate(ts):
        d = r.pick(["/w", "/w", "/w/sub"])
        p = "%s/n%d.c" % (d, i)
        out.append(dict(t, path=p, arg=p[3:] if r.chance(1, 2) else p))
    return out


class C09(Prop):
    """Nothing is used up by files already dealt with."""
    id = "C09"
    quick = 900
    thorough = 18000

    def case(self, r, env):
        m = Maker(r)
        fl = r.pick([[], ["-i"], ["-i"], ["-d"], ["-d"], ["-s"], ["-i", "-s"],
                     ["-D"], ["-D", "-i"], ["-D", "-d"]])
        n = r.range(14, 40)
        kinds = r.pick([["known"], ["known", "corpus"], ["known", "torn"],
                        ["error", "known"], ["missing", "known"],
                        ["formatted", "known"], ["boundary", "known"],
                        ["known", "corpus", "torn", "missing", "error"]])
        ts = []
        for _ in range(n):
            k = r.pick(kinds)
            ts.append({"known": lambda: m.known(nunits=r.range(1, 3)),
                       "corpus": lambda: m.corpus(
                           lambda x: not x.startswith("src-")),
                       "torn": m.torn, "missing": m.missing,
                       "error": lambda: m.corpus(
                           lambda x: x.startswith("error")),
                       "formatted": lambda: m.known(noise=False),
                       "boundary": m.boundary}[k]())
        ts = numbered(r, ts)
        c = {"flags": fl, "targets": ts, "files": {}, "faults": [],
             "programs": {"diff": {}},
             "knobs": {"rng": r.below(1 << 40)}}
        if r.chance(1, 6):
            b = r.pick(sorted(gen.dumps()))
            c["files"]["/w/.clang-format"] = {"data": "BasedOnStyle: %s\n" % b}
            c["programs"]["clang-format"] = {"out": gen.dumps()[b],
                                             "style": b}
        # The same trouble again and again, for most files.
        if r.chance(2, 3):
            log = [x for x in env.run(self.scen(c)).oplog if x[0] == 0 or
                   r.chance(1, 2)]
            args = {t["arg"].encode() for t in ts}
            op1 = next((i for i, x in enumerate(log) if x[3] in args), 0)
            log = log[op1:]
            for _ in range(r.weighted([(4, 1), (1, 2)])):
                f = pick_fault(r, log, ["errno", "errno", "errno", "lose"],
                               lambda x: x[1] not in ("EXIT",))
                if f is None:
                    continue
                num = r.pick([1, 2, 3])
                same = [x for x in log if x[0] == f["p"] and x[1] == f["op"]]
                for i, x in enumerate(same):
                    if (i % num) == 0 and r.chance(9, 10):
                        c["faults"].append(dict(f, n=x[2]))
        c["limit"] = r.pick([11, 12, 14, 16])
        c["double"] = r.below(2) if not c["faults"] else 0
        if not c["faults"] and r.chance(1, 2):
            # One file many times over: what stays behind?
            u = r.pick([m.known, m.boundary, m.corpus, m.torn, m.twisted,
                        m.includes, lambda: m.known(size=20000)])()
            c["copies"] = dict(u, kind="corpus")
            if "-D" in fl:
                c["flags"] = r.pick([[], ["-i"], ["-d"]])
        return c

    def scen(self, case, **kn):
        c = dict(case, knobs=dict(case["knobs"], **kn))
        return with_diff(c, scenario(c))

    def leak(self, case, env):
        """Whatever is kept for a file must not depend on what is in it."""
        def grow(src):
            peaks = []
            for n in (4, 24, 44):
                ts = [dict(case["copies"], path="/w/n%d.c" % i, src=src,
                           want=None, arg="n%03d.c" % i) for i in range(n)]
                for t in ts:
                    t["path"] = "/w/" + t["arg"]
                r = env.run(self.scen(dict(case, targets=ts), fdlimit=4000))
                no_crash(r)
                peaks.append(r.peak)
            return peaks[1] - peaks[0], peaks[2] - peaks[1]
        a = grow(case["copies"]["src"])
        if min(a) > 20 * 80:
            b = grow("int a;\n")
            # A leak shows again and again, a larger block only once.
            if min(a) > max(b) + 2048 + 20 * 16:
                bad("leak", "20 more copies need %d and %d bytes, 20 more "
                    "small files %d and %d" % (a + b))
        env.probe("copies")

    def judge(self, case, env):
        if case.get("copies"):
            self.leak(case, env)
        a = env.run(self.scen(case, fdlimit=4000))
        no_crash(a)
        b = env.run(self.scen(case, fdlimit=case["limit"]))
        no_crash(b)
        if a.code() != b.code():
            bad("exit", "%s with plenty of descriptors, %s with %d" %
                (a.code(), b.code(), case["limit"]))
        for t in case["targets"]:
            if a.content(t["path"]) != b.content(t["path"]):
                bad("content", "%s depends on the number of descriptors" %
                    t["path"])
        if a.out[0] != b.out[0]:
            bad("output", "depends on the number of descriptors")
        if a.err[0] != b.err[0]:
            bad("diagnostics", "depend on the number of descriptors: %s" %
                short(b.err[0][-160:]))
        # Every child has been waited for by the time it is all over.
        waits = {f["op"] for f in case["faults"]} & {"WAITPID"}
        if not waits:
            for r in (a, b):
                me = r.procs[0]
                left = [p for p in r.procs[1:] if p.ppid == me.pid and
                        not p.reaped]
                if left:
                    bad("children", "%d never waited for" % len(left))
        env.probe("children", len(a.procs) - 1)
        env.probe("peak descriptors %d" % a.procs[0].peakfd)
        if case["double"] and "-D" not in case["flags"]:
            # The same files once more under other names.
            n = len(case["targets"])

            def peak(times):
                ts = list(case["targets"])
                for x in "zyxw"[:times - 1]:
                    ts += [dict(t, path=t["path"][:-2] + x + ".c",
                                arg=t["arg"][:-2] + x + ".c")
                           for t in case["targets"]]
                d = env.run(self.scen(dict(case, targets=ts), fdlimit=4000))
                no_crash(d)
                return d.peak

            # What stays behind shows again and again, a larger block which
            # happens to be needed only once.
            two = peak(2)
            if two > a.peak + 32768 + 1024 * n:
                four = peak(4)
                if four > two + 2 * (32768 + 1024 * n):
                    bad("memory", "%d files need %d bytes at most, twice as "
                        "many %d, four times as many %d" % (n, a.peak, two,
                                                            four))
            env.probe("memory compared")


def closure(env, case, t, flagsets, texts):
    """Every text one of the formatters may turn one of texts into."""
    all_ = list(texts)
    res = {}
    i = 0
    while i < len(all_) and len(all_) < 40:
        s = all_[i]
        i += 1
        for fl in flagsets:
            u = dict(t, src=s.decode("latin-1"), want=None, kind="corpus")
            code, out, _ = reference(env, dict(case, flags=fl), u)
            f = out if code == 0 else None
            res[(tuple(fl), s)] = f
            if f is not None and f not in all_:
                all_.append(f)
    return all_, res


class C16(Prop):
    """Several programs at work on the same files."""
    id = "C16"
    quick = 6000
    thorough = 120000

    def case(self, r, env):
        m = Maker(r)
        n = r.weighted([(5, 1), (3, 2), (2, 3)])
        mk = lambda: r.weighted([(6, m.known), (2, m.boundary), (1, lambda:
                                 m.known(noise=False)), (2, lambda: m.corpus(
                                     lambda x: x.startswith("valid")))])()
        ts = dedup([mk() for _ in range(n)])
        edit = r.chance(1, 3)
        for t in ts:
            t["mode"] = 0o644 if edit else r.pick([0o644, 0o600, 0o755, 0o640])
        c = {"targets": ts, "files": {}, "knobs": {"rng": r.below(1 << 40)},
             "faults": [], "programs": {"diff": {}}, "inst": [], "stubs": [],
             "sched_seed": r.below(1 << 30)}
        simple = r.chance(1, 6)
        for _ in range(r.weighted([(5, 2), (3, 3), (1, 4)])):
            fl = r.weighted([(6, ["-i"]), (1, []), (1, ["-d"])])
            if simple and r.chance(1, 2):
                fl = fl + ["-s"]
            which = r.sample(range(len(ts)), r.range(1, len(ts)))
            if "-d" in fl:
                which = which[:1]
            c["inst"].append({"flags": fl, "which": which})
        for _ in range(r.below(3)):
            c["stubs"].append({"stub": "reader",
                               "path": r.pick(ts)["path"],
                               "times": r.range(2, 8)})
        if edit:
            c["stubs"].append({"stub": "editor", "steps": [
                ["replace", r.pick(ts)["path"], m.known()["src"]]
                for _ in range(r.range(1, 3))]})
        if r.chance(1, 4):
            c["knobs"]["wchunk"] = chunks(r)
        if r.chance(1, 4):
            c["knobs"]["rchunk"] = chunks(r)
        if r.chance(1, 6):
            hardlinks(r, c)
        if r.chance(1, 2):
            log = env.run(self.scen(c)).oplog
            for _ in range(r.weighted([(3, 1), (1, 2)])):
                f = pick_fault(r, log, ["kill", "killafter", "errno", "short"],
                               lambda x: x[0] < len(c["inst"]) and
                               x[1] in FSOPS)
                if f:
                    c["faults"].append(f)
        return c

    def scen(self, case):
        sc = scenario(dict(case, flags=[]))
        ts = case["targets"]
        sc["procs"] = [{"argv": ["knfmt"] + x["flags"] +
                        [ts[i]["arg"] for i in x["which"] if i < len(ts)]}
                       for x in case["inst"]] + \
            [dict(s) for s in case["stubs"]]
        return sc

    def judge(self, case, env):
        fsets = []
        for x in case["inst"]:
            fl = [f for f in x["flags"] if f == "-s"]
            if fl not in fsets:
                fsets.append(fl)
        legal, fmt = {}, {}
        edited = {}
        for s in case["stubs"]:
            if s["stub"] == "editor":
                for st in s["steps"]:
                    edited.setdefault(st[1], []).append(
                        st[2].encode("latin-1"))
        for t in case["targets"]:
            base = [t["src"].encode("latin-1")] + edited.get(t["path"], [])
            legal[t["path"]], f = closure(env, case, t, fsets, base)
            fmt[t["path"]] = f
        modes = {t["path"]: t["mode"] for t in case["targets"]}

        def inv(k, sim):
            for p, l in legal.items():
                n = k.lookup(p)
                if n is None:
                    return "missing: %s does not exist at step %d" % (p, k.step)
                if bytes(n.data) not in l:
                    return "mixed: %s holds %s at step %d" % (
                        p, short(n.data), k.step)
                if n.mode & 0o7777 != modes[p]:
                    return "mode: %s has mode %o at step %d" % (
                        p, n.mode & 0o7777, k.step)
            return None
        sc = self.scen(case)
        r = env.run(sc, inv)
        if r.violation:
            cls, msg = r.violation.split(": ", 1)
            bad(cls, msg)
        no_crash(r)
        ni = len(case["inst"])
        for s in sc["procs"][ni:]:
            for d in s.get("seen", ()):
                env.probe("reads by others")
                if d is None:
                    bad("reader", "%s could not be read" % s["path"])
                if d not in legal[s["path"]]:
                    bad("reader", "saw %s" % short(d))
        killed = any(r.procs[i].killed for i in range(ni))
        for i, x in enumerate(case["inst"]):
            which = [case["targets"][w] for w in x["which"]
                     if w < len(case["targets"])]
            fl = tuple(f for f in x["flags"] if f == "-s")
            p = r.procs[i]
            if p.killed:
                continue
            if r.code(i) is None:
                bad("signal", "instance %d: signal %d" % (i, p.status & 0x7f))
            if p.faulted:
                continue
            able = all(f is not None for t in which
                       for (g, _), f in fmt[t["path"]].items() if g == fl)
            if not able:
                continue
            if "-d" in x["flags"]:
                t = which[0]
                out = r.out[i]
                for (g, v), f in fmt[t["path"]].items():
                    if g != fl:
                        continue
                    if (not out and v == f) or (out and v != f and
                       (programs.apply_udiff(v, out) or (None,))[0] == f):
                        break
                else:
                    bad("diff", "instance %d printed %s" % (i, short(out)))
                continue
            if r.code(i) != 0:
                bad("exit", "instance %d: exit %d, nothing failed: %s" %
                    (i, r.code(i), short(r.err[i])))
            if "-i" in x["flags"]:
                if r.out[i]:
                    bad("output", "instance %d printed %s" % (i,
                                                              short(r.out[i])))
                continue
            # Standard output: each file in one of its versions.
            pos = {0}
            for t in which:
                nxt = set()
                for (g, _), f in fmt[t["path"]].items():
                    if g == fl:
                        nxt |= {a + len(f) for a in pos
                                if r.out[i].startswith(f, a)}
                pos = nxt
            if len(r.out[i]) not in pos:
                bad("output", "instance %d printed %s" % (i, short(r.out[i])))
        if not edited:
            for t in case["targets"]:
                # Done when anybody in charge of it was not hindered.
                idx = case["targets"].index(t)
                doer = [x for i, x in enumerate(case["inst"])
                        if "-i" in x["flags"] and idx in x["which"] and
                        r.code(i) == 0]
                got = r.content(t["path"])
                src = t["src"].encode("latin-1")
                outs = {f for f in fmt[t["path"]].values()}
                if doer and None not in outs and got not in outs:
                    bad("not done", "%s is not formatted but exit 0" %
                        t["path"])
                if not any("-i" in x["flags"] and idx in x["which"]
                           for x in case["inst"]) and got != src:
                    bad("touched", "%s changed" % t["path"])
        unl = any(f[1] == "UNLINK" for f in r.fired)
        if not killed and not unl:
            init = set(sc["files"]) | set(sc.get("hardlinks", ()))
            extra = [p for p, n in r.k.files().items()
                     if n.kind != "d" and p not in init]
            if extra:
                bad("leftover", "%s remained" % " ".join(sorted(extra)))
        env.probe("instances", ni)
        if r.ncands:
            env.probe("interleaved runs")


def nest(a, mid, b):
    return lambda n: a * n + mid + b * n


FN = "int\nmain(void)\n{\n\t%s\n}\n"
SHAPES = {
    "paren": (60, lambda n: FN % ("x = " + "(" * n + "1" + ")" * n + ";")),
    "call": (60, lambda n: FN % ("x = " + "f(" * n + "1" + ")" * n + ";")),
    "block": (60, lambda n: FN % ("{" * n + "x = 1;" + "}" * n)),
    "if": (60, lambda n: FN % ("if (x) " * n + "x = 1;")),
    "ifbrace": (60, lambda n: FN % ("if (x) {" * n + "x = 1;" + "}" * n)),
    "ifelse": (200, lambda n: FN % ("if (x) y = 1; else " * n + "x = 1;")),
    "for": (60, lambda n: FN % ("for (;;) " * n + "x = 1;")),
    "do": (60, lambda n: FN % ("do " * n + "x = 1;" + "while (0);" * n)),
    "switch": (40, lambda n: FN % ("switch (x) { case 1: " * n + "x = 1;" +
                                   "}" * n)),
    "init": (60, lambda n: "int x = " + "{" * n + "1" + "}" * n + ";\n"),
    "rows": (400, lambda n: "int x[] = {" + "{1, 2}," * n + "};\n"),
    "struct": (40, lambda n: "struct a {" * n + "int x;" + "}x;" * n + "\n"),
    "fnptr": (40, lambda n: "int " + "(*" * n + "x" + ")(void)" * n + ";\n"),
    "cast": (100, lambda n: FN % ("x = " + "(int)" * n + "1;")),
    "index": (60, lambda n: FN % ("x" + "[a" * n + "]" * n + " = 1;")),
    "plus": (400, lambda n: FN % ("x = 1" + " + a" * n + ";")),
    "and": (400, lambda n: FN % ("if (x" + " && a" * n + ")\n\treturn;")),
    "ternary": (100, lambda n: FN % ("x = " + "a ? b : " * n + "c;")),
    "ternary2": (60, lambda n: FN % ("x = " + "a ? " * n + "c" + ": d" * n +
                                     ";")),
    "unary": (200, lambda n: FN % ("x = " + "!" * n + "c;")),
    "pointer": (200, lambda n: "int " + "*" * n + "c;\n"),
    "args": (400, lambda n: FN % ("f(1" + ", a" * n + ");")),
    "params": (400, lambda n: "int f(int a" + ", int a" * n + ");\n"),
    "vars": (400, lambda n: FN % ("int a" + ", a" * n + ";")),
    "decls": (800, lambda n: FN % ("int a;\n" * n)),
    "stmts": (800, lambda n: FN % ("x = 1;\n" * n)),
    "globals": (800, lambda n: "int x;\n" * n),
    "includes": (800, lambda n: "".join("#include <a%d.h>\n" % (i * 7 % n)
                                        for i in range(n))),
    "cpp": (100, lambda n: "#if 1\n" * n + "int x;\n" + "#endif\n" * n),
    "cppexpr": (60, lambda n: FN % ("x = 1\n#if 1\n+2\n#else\n+3\n#endif\n;\n"
                                    * n)),
    "elif": (200, lambda n: FN % ("\n#if 1\n\tx = 1;\n" +
                                  "#elif 2\n\tx = 3;\n" * n + "#endif\n")),
    "macro": (800, lambda n: "#define x \\\n" + "\ta \\\n" * n + "\tb\n"),
    "comments": (800, lambda n: "/* a */\n" * n + "int x;\n"),
    "longcomment": (2000, lambda n: "/* " + "a " * n + " */\nint x;\n"),
    "blank": (2000, lambda n: "int x;\n" + "\n" * n + "int y;\n"),
    "spaces": (5000, lambda n: "int" + " " * n + "x;\n"),
    "ident": (5000, lambda n: "int " + "x" * n + ";\n"),
    "stmtexpr": (5, lambda n: FN % ("x = " + "({ x = " * n + "1" + "; })" * n +
                                    ";")),
    "attributes": (200, lambda n: "int x " + "__attribute__((a)) " * n +
                   ";\n"),
    "sizeof": (60, lambda n: FN % ("x = " + "sizeof(" * n + "int" + ")" * n +
                                   ";")),
    "strings": (400, lambda n: FN % ("x = " + "\"a\" " * n + ";")),
    "fnparams": (30, lambda n: "int f(" + "int (*g)(" * n + "int" + ")" * n +
                 ");\n"),
    "enum": (400, lambda n: "enum x {" + "A = 1," * n + "};\n"),
    "labels": (200, lambda n: FN % ("l:\n" * n + "x = 1;")),
    "unclosed": (400, lambda n: FN % ("f(" * n)),
    "unclosedcpp": (400, lambda n: "#if 1\n" * n),
    "closed": (400, lambda n: FN % (")}" * n)),
    "quotes": (401, lambda n: FN % ("\"'" * n)),
}


# What may grow: by how much, in case of four times as much of it, processor
# time may do so, measured in steps of the control flow. Anything that repeats
# at the top level, or statement by statement, is linear; one construct that
# gets longer quadratic; nesting worse, and not deep in practice.
LINEAR = {"globals": 500, "decls": 500, "stmts": 500, "labels": 500,
          "comments": 2000, "includes": 2000, "macro": 2000, "blank": 20000,
          "longcomment": 10000, "ident": 20000, "spaces": 20000}
LONG = {"and": 100, "args": 100, "attributes": 60, "enum": 100, "params": 100,
        "plus": 100, "rows": 100, "strings": 200, "vars": 200, "pointer": 400,
        "unary": 400, "unclosed": 300, "unclosedcpp": 300, "closed": 300,
        "quotes": 400, "ifelse": 40, "elif": 200}
GROWTH = {"shape": (7, 7), "text": (7, 7), "files": (7, 7), "style": (7, 7),
          "long": (24, 7), "corpus": (24, 24), "hunks": (24, 24),
          "nest": (64, 24)}


def hunks(src, arg, every):
    """A diff of one line out of some."""
    out = "--- %s\n+++ %s\n" % (arg, arg)
    lines = src.split("\n")[:-1]
    for i in range(0, len(lines), every):
        out += "@@ -%d,0 +%d,1 @@\n+%s\n" % (i, i + 1, lines[i])
    return out


class C18(Prop):
    """Always comes to an end."""
    id = "C18"
    variants = ("plain", "work")
    quick = 4500
    thorough = 100000

    def grow(self, r):
        """The same thing, and four times as much of it."""
        m = Maker(r)
        g = {"kind": r.weighted([(4, "shape"), (4, "text"), (2, "hunks"),
                                 (1, "files"), (1, "style"), (3, "long"),
                                 (2, "nest")])}
        fl = r.pick([[], [], ["-i"], ["-d"], ["-s"], ["-i", "-s"], ["-D"],
                     ["-D", "-i"], ["-D", "-d"]])
        if g["kind"] == "shape":
            g["name"] = r.pick(sorted(LINEAR))
            g["n"] = LINEAR[g["name"]]
        elif g["kind"] == "long":
            g["name"] = r.pick(sorted(LONG))
            g["n"] = LONG[g["name"]]
        elif g["kind"] == "nest":
            g["name"] = r.pick([k for k in sorted(SHAPES) if k not in LONG and
                                k not in LINEAR and SHAPES[k][0] >= 20])
            g["n"] = SHAPES[g["name"]][0] // 4
        elif g["kind"] in ("text", "hunks", "files"):
            if r.chance(1, 2):
                t = m.known()
            else:
                t = m.corpus(lambda x: x.startswith("valid"))
                if g["kind"] == "text":
                    g["kind"] = "corpus"
            g["src"] = t["src"]
            g["n"] = max(1, 12000 // (len(t["src"]) + 1))
            if g["kind"] == "hunks":
                fl = r.pick([["-D"], ["-D", "-i"], ["-D", "-d"]])
                g["every"] = r.pick([3, 4, 7])
            elif g["kind"] == "files":
                g["n"] = r.range(4, 10)
        else:
            b = r.pick(sorted(gen.dumps()))
            g["src"] = gen.dumps()[b]
            g["n"] = 4
        return {"flags": fl, "targets": [], "files": {}, "faults": [],
                "programs": {"diff": {}}, "knobs": {"rng": r.below(1 << 40)},
                "grow": g}

    def grown(self, case, times):
        g = case["grow"]
        n = g["n"] * times
        src = "int x;\n"
        c = dict(case, variant="work", maxsteps=1 << 30,
                 alloc={"cpu": 1}, files={})
        paths = ["/w/a.c"]
        if g["kind"] in ("shape", "long", "nest"):
            src = SHAPES[g["name"]][1](n)
        elif g["kind"] == "files":
            src = g["src"]
            paths = ["/w/a%03d.c" % i for i in range(n)]
        elif g["kind"] == "style":
            c["files"]["/w/.clang-format"] = {"data": g["src"] * n}
        else:
            src = g["src"] * n
        c["targets"] = [{"path": p, "arg": p, "src": src, "want": None,
                         "kind": "corpus"} for p in paths]
        if g["kind"] == "hunks":
            c["diff"] = hunks(src, "/w/a.c", g["every"])
        return self.scen(c)

    def judge_growth(self, case, env):
        g = case["grow"]
        a = env.run(self.grown(case, 1))
        b = env.run(self.grown(case, 4))
        for r in (a, b):
            no_crash(r)
            if not r.procs[0].dead:
                bad("progress", "did not exit")
        if a.status() != b.status():
            return              # not the same thing after all
        time, memory = GROWTH[g["kind"]]
        if b.work > time * a.work + 200000:
            bad("time", "%d steps of control flow, four times as much of %s "
                "%d" % (a.work, g.get("name", "the input"), b.work))
        if b.peak > memory * a.peak + (1 << 20):
            bad("memory", "%d bytes needed, four times as much of %s %d" %
                (a.peak, g.get("name", "the input"), b.peak))
        env.probe("growth measured")

    def case(self, r, env):
        if r.chance(1, 30):
            return self.grow(r)
        m = Maker(r)
        fl = r.pick([[], ["-i"], ["-d"], ["-s"], ["-i", "-s"], ["-D"],
                     ["-D", "-i"], ["-D", "-d"]])
        ts = []
        for _ in range(r.weighted([(4, 1), (3, 3), (1, 10)])):
            if r.chance(1, 4):
                k = r.pick(sorted(SHAPES))
                mx, f = SHAPES[k]
                path, arg = m.name()
                n = r.pick([mx, r.range(1, mx), r.range(1, mx)])
                if "-s" in fl:
                    n = min(n, 60)
                ts.append({"path": path, "arg": arg, "src": f(n), "want": None,
                           "kind": "corpus", "name": "%s %d" % (k, n)})
            else:
                ts.append(m.any())
        c = {"flags": fl, "targets": dedup(ts), "files": {}, "faults": [],
             "programs": {"diff": {}}, "knobs": {"rng": r.below(1 << 40)},
             "sched_seed": r.below(1 << 30)}
        if r.chance(1, 3):
            b = r.pick(sorted(gen.dumps()))
            c["files"]["/w/.clang-format"] = {"data": "BasedOnStyle: %s\n" % b}
            out = gen.dumps()[b]
            c["programs"]["clang-format"] = r.pick([
                {"out": out}, {"out": out, "chunk": r.pick([1, 100, 4096])},
                {"out": out * r.pick([1, 2, 30])},
                {"out": out, "mode": "fail", "cut": r.below(len(out))},
                {"out": out, "mode": "killed", "cut": r.below(len(out))}])
        if r.chance(1, 2):
            c["knobs"]["pipecap"] = r.pick([1, 16, 512, 4096, 4096, 65536])
        if r.chance(1, 3):
            c["knobs"]["rchunk"] = chunks(r)
        if r.chance(1, 3):
            c["knobs"]["wchunk"] = chunks(r)
        cf = c["programs"].get("clang-format")
        if cf and len(cf["out"]) > 20000:
            # Byte by byte would take forever, and rightly so.
            for k in ("pipecap", "rchunk", "wchunk"):
                c["knobs"].pop(k, None)
            c["knobs"]["pipecap"] = r.pick([4096, 65536])
        if r.chance(1, 8):
            c["knobs"]["disk_free"] = r.range(0, 3000)
        if r.chance(1, 8):
            c["knobs"]["fdlimit"] = r.range(3, 8)
        if r.chance(1, 6):
            c["proc"] = {"stdout": r.pick([{"limit": r.range(0, 2000)},
                                           {"closed": 1}])}
            c["knobs"]["sigpipe_ign"] = r.below(2)
        elif r.chance(1, 4) and "-i" not in fl:
            c["others"] = [{"stub": "cat", "reads": 0}]
        log = env.run(self.scen(c)).oplog
        for _ in range(r.weighted([(1, 0), (4, 1), (3, 3), (2, 6)])):
            f = pick_fault(r, log, ["errno", "errno", "short", "lose", "kill"],
                           lambda x: True)
            if f and (f["kind"] != "kill" or f["p"] >= 1 +
                      len(c.get("others", ()))):
                c["faults"].append(lasts(r, f))
        return c

    def scen(self, case):
        return with_diff(case, scenario(case))

    def judge(self, case, env):
        if "grow" in case:
            return self.judge_growth(case, env)
        sc = self.scen(case)
        size = sum(len(t["src"]) for t in case["targets"]) * 3 + \
            sum(len(f.get("data", "")) for f in case["files"].values()) + \
            sum(len(p.get("out", "")) for p in case["programs"].values()) * (
                len(case["targets"]) + 1)
        # Every byte may need a call of its own, more than once: read, passed
        # on by a helper, written, read by whoever comes next.
        bound = 12 * size + 400 * (len(case["targets"]) + 1) + 2000
        sc["maxsteps"] = bound
        r = env.run(sc)
        no_crash(r)
        if not r.procs[0].dead:
            bad("progress", "did not exit")
        if r.peak > (256 << 20):
            bad("memory", "%d bytes needed for %d bytes of input" %
                (r.peak, size))
        env.probe("peak memory above 16 MB", int(r.peak > 16 << 20))
        env.probe("steps per run", r.steps)


class C19(Prop):
    """Running again puts things right."""
    id = "C19"
    quick = 5000
    thorough = 100000

    def case(self, r, env):
        m = Maker(r)
        n = r.weighted([(4, 1), (3, 2), (2, 4)])
        ts = dedup([r.weighted([(6, m.known), (3, m.boundary),
                                (1, lambda: m.known(noise=False)),
                                (2, lambda: m.corpus(
                                    lambda x: x.startswith("valid")))])()
                    for _ in range(n)])
        for t in ts:
            t["mode"] = r.pick([0o644, 0o600, 0o755, 0o400])
        c = {"flags": inplace_flags(r), "targets": ts, "files": {},
             "faults": [], "knobs": {"rng": r.below(1 << 40)},
             "programs": {"diff": {}}, "lives": []}
        if r.chance(1, 6):
            hardlinks(r, c)
        same = r.chance(1, 2)       # do temporary names collide?
        files = None
        for _ in range(r.weighted([(5, 1), (3, 2), (2, 4)])):
            life = {"knobs": {"rng": c["knobs"]["rng"] if same else
                              r.below(1 << 40)}, "faults": [],
                    "flags": r.weighted([(8, c["flags"]), (1, ["-d"]),
                                         (1, [])])}
            if r.chance(1, 5):
                life["knobs"]["wchunk"] = chunks(r)
            if r.chance(1, 10):
                life["knobs"]["disk_free"] = r.range(0, 5000)
            log = env.run(self.scen(c, life, files)).oplog
            for _ in range(r.weighted([(6, 1), (2, 2)])):
                f = pick_fault(r, log, ["kill", "killafter", "killafter",
                                        "power", "power", "errno", "lose"],
                               lambda x: x[1] in FSOPS)
                if f:
                    life["faults"].append(f)
            c["lives"].append(life)
            files = self.after(env.run(self.scen(c, life, files)))
        c["last"] = {"rng": c["knobs"]["rng"] if same else r.below(1 << 40)}
        return c

    def scen(self, case, life, files):
        c = dict(case, flags=life["flags"], faults=life["faults"],
                 knobs=life["knobs"])
        sc = scenario(c)
        if files is not None:
            sc["files"] = files
            sc.pop("hardlinks", None)
        return sc

    @staticmethod
    def after(r):
        """What the next run finds."""
        for n in r.k.files().values():
            if n.kind == "f" and n.wberr:
                r.k.writeback_failed(n)
        out = {}
        for p, n in sorted(r.k.files().items()):
            if n.kind == "f":
                out[p] = {"data": bytes(n.data).decode("latin-1"),
                          "mode": n.mode & 0o7777, "uid": n.uid, "gid": n.gid}
            elif n.kind == "d":
                out[p] = {"dir": n.mode & 0o7777}
        return out

    def judge(self, case, env):
        want = {}
        for t in case["targets"]:
            code, out, _ = reference(env, case, dict(t, want=None))
            if code != 0:
                continue
            code, again, _ = reference(env, case, dict(
                t, src=out.decode("latin-1"), want=None))
            if code == 0 and again == out:
                want[t["path"]] = out
        ts = [t for t in case["targets"] if t["path"] in want]
        if not ts:
            return
        case = dict(case, targets=ts)
        files = None
        for life in case["lives"]:
            r = env.run(self.scen(case, life, files))
            no_crash(r)
            files = self.after(r)
            if r.procs[0].killed or not r.k.powered:
                env.probe("interrupted lives")
            for t in ts:
                f = files.get(t["path"])
                if f is None or f["data"].encode("latin-1") not in (
                        t["src"].encode("latin-1"), want[t["path"]]):
                    bad("lost", "%s is %s after an interrupted run" %
                        (t["path"], short(f["data"].encode("latin-1"))
                         if f else "gone"))
        before = set(files or ())
        strays = [p for p in before if "data" in files[p] and
                  p not in {t["path"] for t in ts}]
        env.probe("leftovers met", len(strays))
        life = {"flags": case["flags"], "faults": [], "knobs": case["last"]}
        r = env.run(self.scen(case, life, files))
        no_crash(r)
        if r.code() != 0:
            bad("exit", "running again: exit %s: %s" % (r.code(),
                                                        short(r.err[0])))
        for t in ts:
            if r.content(t["path"]) != want[t["path"]]:
                bad("not done", "%s is not formatted after running again" %
                    t["path"])
            n = r.k.lookup(t["path"])
            if n.mode & 0o7777 != t["mode"]:
                bad("mode", "%s has mode %o after running again" %
                    (t["path"], n.mode & 0o7777))
        now = {p for p, n in r.k.files().items() if n.kind != "d"}
        extra = sorted(now - before)
        if extra:
            bad("leftover", "%s appeared" % " ".join(extra))
        for p in strays:
            if r.content(p) is not None and \
                    r.content(p) != files[p]["data"].encode("latin-1"):
                bad("touched", "%s belongs to an earlier run" % p)
        # And once more: nothing left to do.
        r2 = env.run(self.scen(case, dict(life, knobs={"rng": 5}),
                               self.after(r)))
        no_crash(r2)
        if r2.code() != 0:
            bad("again", "a third run: exit %s" % r2.code())
        for t in ts:
            n = r2.k.lookup(t["path"])
            if n is None or n.writes or n in r2.k.created:
                bad("again", "a third run still rewrites %s" % t["path"])

"""What the checks share: cases, reference runs, fault placement, statistics."""
import collections
import errno as E
import json
import zlib

import gen
import kernel as K
import run as R
from gen import Rng, mix

ERRNO = {
    "OPEN": [E.EACCES, E.EMFILE, E.ENFILE, E.EIO, E.EINTR, E.ENOMEM, E.ELOOP],
    "OPENAT": [E.EACCES, E.EMFILE, E.EIO, E.EINTR, E.ENOMEM],
    "READ": [E.EIO, E.EINTR, E.EISDIR, E.ENOMEM],
    "PREAD": [E.EIO],
    "WRITE": [E.ENOSPC, E.EIO, E.EDQUOT, E.EFBIG, E.EINTR],
    "PWRITE": [E.ENOSPC, E.EIO],
    "MKSTEMP": [E.EEXIST, E.EACCES, E.ENOSPC, E.EMFILE, E.EROFS],
    "RENAME": [E.EIO, E.EACCES, E.ENOSPC, E.EBUSY, E.EROFS, E.EXDEV],
    "RENAMEAT": [E.EIO, E.EACCES, E.ENOSPC],
    "LINK": [E.EIO, E.EPERM],
    "UNLINK": [E.EIO],
    "FSTAT": [E.EIO, E.ENOMEM],
    "STAT": [E.EIO, E.EACCES],
    "LSTAT": [E.EIO, E.EACCES],
    "FSTATAT": [E.EIO],
    "FCHMOD": [E.EPERM, E.EIO, E.EROFS],
    "CHMOD": [E.EPERM, E.EIO],
    "FCHOWN": [E.EPERM, E.EIO, E.EDQUOT],
    "CHOWN": [E.EPERM, E.EIO],
    "FSYNC": [E.EIO, E.ENOSPC, E.EDQUOT],
    "FDATASYNC": [E.EIO, E.ENOSPC],
    "CLOSE": [E.EIO, E.EINTR, E.ENOSPC],
    "LSEEK": [E.EIO],
    "FTRUNCATE": [E.EIO, E.ENOSPC],
    "FORK": [E.EAGAIN, E.ENOMEM],
    "PIPE": [E.EMFILE, E.ENFILE],
    "EXEC": [E.ENOENT, E.EACCES, E.ENOMEM],
    "DUP": [E.EMFILE],
    "DUP2": [E.EMFILE, E.EINTR],
    "WAITPID": [E.EINTR],
}


class Stats:
    def __init__(self):
        self.runs = 0
        self.steps = 0
        self.cases = 0
        self.nontrivial = 0
        self.fired = collections.Counter()
        self.traces = set()
        self.probes = collections.Counter()
        self.preempt = 0
        self.samples = []

    def dump(self):
        return {"runs": self.runs, "steps": self.steps, "cases": self.cases,
                "nontrivial": self.nontrivial, "fired": dict(self.fired),
                "traces": sorted(self.traces), "probes": dict(self.probes),
                "preempt": self.preempt, "samples": self.samples}


class Env:
    """Runs scenarios and remembers what was covered."""

    def __init__(self):
        self.st = Stats()
        self.cache = {}
        self.crc = 0
        self.keep = False
        self.traces = []
        self.drawing = False    # a case is being made, not judged

    def run(self, sc, inv=None, ref=False):
        r = R.run(sc, inv, self.keep)
        self.st.runs += 1
        self.st.steps += r.steps
        for kind, op, e in r.fired:
            self.st.fired["%s:%s" % (kind, op) + (
                ":" + E.errorcode.get(e, str(e)) if kind == "errno" else "")] += 1
        self.st.preempt += r.ncands
        if r.fired or r.ncands > 0:
            self.st.nontrivial += 1
        if not ref and not self.drawing:
            self.st.traces.add(r.crc)
        self.crc = zlib.crc32(b"%d" % r.crc, self.crc)
        if self.keep:
            self.traces.append(r)
        return r

    def probe(self, what, n=1):
        self.st.probes[what] += n


class Bad(Exception):
    """A violation: class, then details."""

    def __init__(self, cls, msg):
        super().__init__("%s: %s" % (cls, msg))
        self.cls = cls


def bad(cls, msg):
    raise Bad(cls, msg)


def short(b, n=160):
    if b is None:
        return "absent"
    return repr(bytes(b[:n])) + ("... (%d bytes)" % len(b) if len(b) > n else "")


# -- cases -------------------------------------------------------------------
# A case is a scenario without files and argv for the targets; these are
# filled in here so that a case can be shrunk target by target.
def scenario(case, **over):
    sc = {k: case[k] for k in ("cwd", "faults", "knobs", "alloc", "variant",
                               "programs", "sched", "sched_seed", "maxsteps",
                               "hardlinks") if k in case}
    sc.setdefault("cwd", "/w")
    files = dict(case.get("files", {}))
    for t in case.get("targets", ()):
        if t.get("link"):
            files[t["path"]] = {"link": t["link"]}
        elif t.get("kind") == "missing":
            pass
        elif t.get("kind") == "dir":
            files[t["path"]] = {"dir": 0o755}
        else:
            files[t["path"]] = {"data": t["src"], "mode": t.get("mode", 0o644),
                                "uid": t.get("uid", 0), "gid": t.get("gid", 0)}
    sc["files"] = files
    p = dict(case.get("proc", {}))
    p["argv"] = ["knfmt"] + case.get("flags", []) + \
        [t["arg"] for t in case.get("targets", ())]
    sc["procs"] = [p] + case.get("others", [])
    sc.update(over)
    # Stubs record what they saw in their own description: never share it.
    sc["procs"] = [dict(x) for x in sc["procs"]]
    sc["programs"] = {k: dict(v) for k, v in sc.get("programs", {}).items()}
    return sc


def reference(env, case, t, flags=None, keepstyle=True):
    """(status, stdout, stderr) of a fault free run on one target alone."""
    fl = [f for f in (case.get("flags", []) if flags is None else flags)
          if f not in ("-i", "-d", "-D", "-di")]
    key = json.dumps([fl, t, case.get("files"), case.get("cwd"),
                      case.get("programs")], sort_keys=True)
    h = env.cache.get(key)
    if h is None:
        c = {"flags": fl, "targets": [t], "files": case.get("files", {}),
             "cwd": case.get("cwd", "/w"),
             "programs": case.get("programs", {})}
        r = env.run(scenario(c), ref=True)
        if r.procs[0].crash:
            h = (None, r.procs[0].crash.encode(), b"")
        else:
            h = (r.code(), r.out[0], r.err[0])
        if len(env.cache) > 3000:
            env.cache.clear()
        env.cache[key] = h
    return h


def expected(env, case, t):
    """(accepted, formatted bytes) for one target."""
    if t.get("want") is not None and t.get("flagged") == (
            "-s" in case.get("flags", [])):
        return True, t["want"].encode("latin-1")
    if t.get("kind") in ("missing", "dir"):
        return False, None
    code, out, _ = reference(env, case, t)
    if code == 0:
        return True, out
    return False, None


class Maker:
    """Draws targets."""

    def __init__(self, r, tag="x"):
        self.r = r
        self.tag = tag
        self.n = 0

    def name(self):
        self.n += 1
        r = self.r
        base = "%s%d" % (self.tag, self.n)
        if r.chance(1, 12):
            base += "y" * r.pick([20, 100, 200])
        if r.chance(1, 10):
            base = r.pick(["%s y", "%s%%s%%n%%d", ".%s", "-%s", "%s'\"", "%s.b",
                           "%s\xe5\xff", "%s~", "%s:3", "b %s", "%s\\"]) % base
        base += r.pick([".c", ".c", ".c", ".h", ""])
        d = r.pick(["/w", "/w", "/w", "/w/sub", "/w/sub/deep", "/other"])
        path = d + "/" + base
        k = r.below(4)
        if k == 0 or d == "/other":
            arg = path
        elif k == 1 or base.startswith("-"):
            arg = "./" + path[3:]
        elif k == 2 and r.chance(1, 4):
            arg = r.pick(["../w/", ".//", "/w/../w/", "./" * 30]) + path[3:]
        else:
            arg = path[3:]
        return path, arg

    def known(self, noise=True, size=None, of="src", nunits=None):
        r = self.r
        path, arg = self.name()
        g = gen.CGen(r, "%s%d" % (self.tag, self.n))
        if size is not None:
            s = g.sized(size, noise, of)
        else:
            s = g.source(nunits or r.weighted([(6, r.range(1, 3)),
                                               (3, r.range(3, 8)),
                                               (1, r.range(8, 30))]), noise)
        return {"path": path, "arg": arg, "src": s.src, "want": s.want,
                "kind": "known", "flagged": False}

    def boundary(self, of=None):
        """A size next to a power of two: where buffers grow."""
        r = self.r
        n = (1 << r.weighted([(3, 12), (3, 13), (1, 14), (1, 11)])) * \
            r.pick([1, 1, 1, 2, 3]) // r.pick([1, 1, 2])
        n += r.range(-3, 3)
        return self.known(size=max(n, 40), of=of or r.pick(["src", "want"]))

    def corpus(self, pred=None):
        r = self.r
        c = [x for x in gen.corpus() if pred is None or pred(x[0])]
        name, data = r.pick(c)
        path, arg = self.name()
        return {"path": path, "arg": arg, "src": data.decode("latin-1"),
                "want": None, "kind": "corpus", "name": name}

    def torn(self):
        r = self.r
        t = self.corpus(lambda n: not n.startswith("src-")) \
            if r.chance(3, 4) else self.known()
        d, how = gen.tear(r, t["src"].encode("latin-1"))
        return dict(t, src=d.decode("latin-1"), want=None, kind="torn",
                    name=how)

    def missing(self):
        path, arg = self.name()
        return {"path": path, "arg": arg, "src": "", "want": None,
                "kind": self.r.pick(["missing", "missing", "dir"])}

    def twisted(self):
        """Unusual bytes: other encodings, line endings, control characters."""
        r = self.r
        t = self.known() if r.chance(1, 2) else \
            self.corpus(lambda n: not n.startswith("error"))
        return dict(t, src=gen.twist(r, t["src"]), want=None, kind="corpus",
                    name="twisted")

    def includes(self):
        """Include directives that can be told apart only just."""
        r = self.r
        path, arg = self.name()
        src = gen.includes(r, path.rsplit("/", 1)[1].rsplit(".", 1)[0])
        return {"path": path, "arg": arg, "src": src, "want": None,
                "kind": "corpus", "name": "includes"}

    WORDS = tuple(
        ["int\nf%%d(void)\n{\n\t%s(%s\"x\\n\"%s);\n}\n" % (f, a, b)
         for f, a, b in (
            ("err", "1, ", ""), ("errc", "1, 2, ", ""), ("errx", "1, ", ""),
            ("perror", "", ""), ("verr", "1, ", ", ap"),
            ("verrc", "1, 2, ", ", ap"), ("verrx", "1, ", ", ap"),
            ("vwarn", "", ", ap"), ("vwarnc", "1, ", ", ap"),
            ("vwarnx", "", ", ap"), ("warn", "", ""), ("warnc", "1, ", ""),
            ("warnx", "", ""))] +
        ["struct s%d {\n\tint  a;\n\tLIST_ENTRY(x)  b;\n};\n",
         "static  inline int  f%d(void) __attribute__((__pure__));\n",
         "int\nf%d(register int a,volatile   int b)\n{\n\tint  x;\n\t"
         "switch(a){\n\tcase 1 :\n\tbreak;\n\tdefault :\n\tcontinue;\n\t}\n"
         "\tgoto  out;\n out:\n\tdo {a++;} while(a<b);\n\t"
         "for(;;);\n\treturn   sizeof(a);\n}\n",
         "typedef  union u%d { unsigned  long  long a; signed char b;} u;\n",
         "enum e%d {A,\n B};\n", "extern  const  _Bool e%d;\n",
         "#if a\nint  a%d(\n#elif b\nint   b(\n#else\nint  c(\n#endif\n"
         "void);\n",
         "#ifdef a\nint  d%d = (\n#endif\n1);\n",
         "#ifndef a\nint  g%d = (\n#endif\n1);\n",
         "int  h%d;\n#pragma once\n#undef  x\n#error  y\n#line 3\nint  i;\n",
         "#define m%d(x) \\\n  do  { \\\n  } while(0)\n",
         "int  x%d[]  = { [0]=1,[1]   = 2, .a=b , };\n",
         "void\nf%d(void)\n{\n\tasm volatile(\"x\":\"=r\"(a):\"r\"(b));\n"
         "\ta<<=1;b>>=2;c^=3;d|=4;e&=5;f%%=6;\n\ta?b:c;\n\ta->b.c++;\n}\n"])

    def words(self):
        """Something that depends on what words are known."""
        r = self.r
        path, arg = self.name()
        w = r.sample(self.WORDS, r.range(1, 12))
        return {"path": path, "arg": arg, "want": None, "kind": "corpus",
                "name": "words", "src": "\n".join(
                    x % i for i, x in enumerate(w))}

    def odd(self):
        """Extreme sizes and shapes."""
        r = self.r
        path, arg = self.name()
        k = r.below(9)
        x = "%s%d" % (self.tag, self.n)
        if k <= 1:
            s = ""
        elif k == 2:
            s = "\n" * r.range(1, 4)
        elif k == 3:
            s = r.pick([" ", "\t", "  \n", "\t\n\n", ";", "\n;\n"])
        elif k == 4:
            s = "/* %s */" % x + r.pick(["", "\n"])
        elif k == 5:
            s = "int %s;" % x + r.pick(["", " ", "\r\n", "\n\n\n"])
        elif k == 6:
            s = "#define %s 1" % x
        elif k == 7:
            s = "int %s = %s;\n" % (x, " + ".join(
                "%s%d" % (x, i) for i in range(r.range(20, 400))))
        else:
            s = "\n".join("int %s_%d;%s" % (x, i, r.pick(["", "", "\n"]))
                          for i in range(r.range(1, 900))) + "\n"
        return {"path": path, "arg": arg, "src": s, "want": None,
                "kind": "odd"}

    def long(self):
        """Something which fills a line is much longer than anybody expects."""
        r = self.r
        path, arg = self.name()
        n = r.pick([100, 255, 1000, 4095, 4096, 4097, 5000, 9000, 20000, 66000])
        n += r.range(-2, 2)
        x = "%s%d" % (self.tag, self.n)
        w = (x * (n // len(x) + 1))[:n]
        s = r.pick([
            "int %s ;\n" % w, "int a%s, %s_;\n" % (w, w),
            "const char *%s =\"%s\";\n" % (x, w),
            "/* %s */\nint %s ;\n" % (w, x), "// %s\nint %s ;\n" % (w, x),
            "int %s; /* %s */\n" % (x, w), "#define %s %s\n" % (x, w),
            "#define %s(a) do {\\\n\t%s(a);\\\n} while (0)\n" % (x, w),
            "#include <%s.h>\n\nint %s ;\n" % (w, x),
            "int %s =%s;\n" % (x, ("0123456789" * (n // 10 + 1))[:n]),
            "int%s%s;\n" % (" " * n, x), "int %s;%sint %s_;\n" % (
                x, "\n" * n, x), "int %s;%s\n" % (x, "\t" * n),
            "int\n%s(void)\n{\n\tif (a)\n\t\tgoto %s;\n%s:\n\treturn "
            "%s(%s);\n}\n" % (x, w, w, w, w),
            "struct %s {\n\tint a;\n\tstruct %s *b;\n};\n" % (x, w),
            "int %s = {%s};\n" % (x, ("1, " * (n // 3))),
            "char %s = '%s';\n" % (x, w),
        ])
        if r.chance(1, 3):
            s = r.pick(["int y;\n\n", "#include <a.h>\n\n"]) + s
        if r.chance(1, 3):
            s += "\nint z;\n"
        return {"path": path, "arg": arg, "src": s, "want": None,
                "kind": "corpus", "name": "long %d" % n}

    def wrong(self):
        """Malformed, with much to complain about."""
        r = self.r
        t = self.long()
        k = r.below(4)
        n = r.pick([1, 30, 300, 3000])
        s = t["src"]
        if k == 0:
            s = "int f(void) { return ((;%s }\n" % s.replace("\n", " ")
        elif k == 1:
            s = s.rstrip().rstrip(";}") + r.pick([" (", " {", " [", " )"]) * n
        elif k == 2:
            s = "\n".join("int a%d(void) { return ((%d ; }" % (i, i)
                          for i in range(n))
        else:
            s = "int f(int a { %s\n" % s
        return dict(t, src=s, kind="torn", name="wrong")

    def large(self, noise=True):
        r = self.r
        n = r.pick([1 << 16, 1 << 17, 1 << 18, 300000]) + r.range(-3, 3)
        path, arg = self.name()
        x = "%s%d" % (self.tag, self.n)
        a = b = ""
        i = len(self.tag)
        while len(b) < n:
            i += 1
            w = "int %s_%d;\n\n" % (x, i)
            b += w
            a += w.replace(";", " ;") if noise and i % 50 == 0 else w
        a, b = a[:-1], b[:-1]
        return {"path": path, "arg": arg, "src": a, "want": b,
                "kind": "known", "flagged": False}

    def any(self, failing=True):
        if self.r.chance(1, 200):
            return self.large()
        k = self.r.weighted([(10, "known"), (4, "formatted"), (4, "boundary"),
                             (8, "corpus"), (2, "odd"), (2, "twisted"),
                             (1, "includes"), (1, "long"),
                             (1 if failing else 0, "wrong"),
                             (4 if failing else 0, "torn"),
                             (2 if failing else 0, "error"),
                             (2 if failing else 0, "missing")])
        if k == "known":
            return self.known()
        if k == "formatted":
            return self.known(noise=False)
        if k == "boundary":
            return self.boundary()
        if k == "corpus":
            return self.corpus(lambda n: not n.startswith("error"))
        if k == "torn":
            return self.torn()
        if k == "odd":
            return self.odd()
        if k == "twisted":
            return self.twisted()
        if k == "includes":
            return self.includes()
        if k == "long":
            return self.long()
        if k == "wrong":
            return self.wrong()
        if k == "error":
            return self.corpus(lambda n: n.startswith("error"))
        return self.missing()


def hardlinks(r, c):
    """Other names for some of the targets."""
    for t in c["targets"]:
        if t.get("kind") not in ("missing", "dir") and not t.get("link") and \
                r.chance(1, 2):
            c.setdefault("hardlinks", {})[t["path"] + ".hard"] = t["path"]


def crowd(r, m, ts, what="missing"):
    """So many files that counting them in a byte goes wrong."""
    n = r.pick([127, 128, 255, 256, 256, 256, 257, 512])
    out = []
    for i in range(n):
        p = "/w/crowd%d.c" % i
        out.append({"path": p, "arg": p[3:], "src": "int a%d" % i + (
            "" if what == "error" else " ;\n"), "want": None,
            "kind": "missing" if what == "missing" else "corpus",
            "name": what})
    return out


def chunks(r):
    return r.pick([None, [1], [7], [1, 4095], [4096], [4095], [4097],
                   [r.range(1, 64)], [r.range(1, 300), 0],
                   [r.range(1, 5000) for _ in range(5)], [8191, 1], [100, 1]])


def pick_fault(r, oplog, kinds, pred=None):
    """A fault at a call that the fault free run really makes."""
    cands = [x for x in oplog if pred is None or pred(x)]
    for _ in range(30):
        if not cands:
            return None
        # Rare calls deserve as many faults as common ones.
        if r.chance(1, 2):
            op = r.pick(sorted({x[1] for x in cands}))
            p, op, n, _ = r.pick([x for x in cands if x[1] == op])
        else:
            p, op, n, _ = r.pick(cands)
        kind = r.pick(kinds)
        f = {"p": p, "op": op, "n": n, "kind": kind}
        if op in ("EXIT", "ASSERT") and kind not in ("kill", "power"):
            continue
        if kind == "errno":
            if op not in ERRNO:
                continue
            f["errno"] = r.pick(ERRNO[op])
        elif kind == "short":
            if op not in ("READ", "WRITE"):
                continue
            f["limit"] = r.pick([1, 2, 16, r.range(1, 4096)])
        elif kind == "lose":
            if op != "WRITE":
                continue
            f["errno"] = r.pick([E.EIO, E.ENOSPC, E.EDQUOT])
        elif kind == "kill":
            f["sig"] = r.pick([9, 2, 15, 1])
        elif kind == "killafter":
            f["sig"] = r.pick([9, 2, 15])
            if op == "WRITE" and r.chance(1, 2):
                f["limit"] = r.pick([1, 16, r.range(1, 4096)])
        elif kind == "power":
            f["seed"] = r.below(1 << 30)
        return f
    return None


def lasts(r, f):
    """The cause of a failure may persist; interruptions do not."""
    if f and f["kind"] == "errno" and f["errno"] not in (E.EINTR, E.EAGAIN) \
            and r.chance(1, 3):
        f["on"] = 1
    return f


def follow(k, path):
    """What a reader of path sees, or None."""
    n = k.lookup(path)
    for _ in range(4):
        if n is None or n.kind != "l":
            break
        t = n.data.decode()
        n = k.lookup(t if t.startswith("/") else
                     path.rsplit("/", 1)[0] + "/" + t)
    return n


class Prop:
    id = None
    variants = ("plain",)
    quick = 200
    thorough = 5000
    technique = ""
    level = "exploration"

    def case(self, r, env):
        raise NotImplementedError

    def judge(self, case, env):
        """Raises Bad."""
        raise NotImplementedError

    def check(self, case, env):
        try:
            self.judge(case, env)
        except Bad as e:
            return e
        return None


def no_crash(r, who="knfmt"):
    for p in r.procs:
        if p.crash:
            bad("crash", "%s: %s" % (who, p.crash))
    if r.deadlock:
        bad("deadlock", "no process can make progress")
    if r.livelock:
        bad("livelock", "did not finish within %d steps" % r.steps)

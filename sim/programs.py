"""Stub programs: what knfmt execs. They run as generators inside the simulator
and make the same simulated calls as real code would.

A generator yields (op, args, payload) and receives (ret, errno, payload).
"""
import difflib
import errno as E

import gen

from kernel import O_CREAT, O_TRUNC, O_WRONLY


def z(s):
    return s.encode("utf-8", "surrogateescape") + b"\0"


def slurp(fd):
    data = b""
    while True:
        r, e, pay = yield "READ", (fd, 8192), b""
        if r == -1:
            if e == E.EINTR:
                continue
            return None
        if r == 0:
            return data
        data += pay


def spit(fd, data):
    while data:
        r, e, _ = yield "WRITE", (fd, len(data)), data
        if r == -1:
            if e == E.EINTR:
                continue
            return False
        data = data[r:]
    return True


def readfile(path):
    fd, e, _ = yield "OPEN", (0, 0), z(path)
    if fd == -1:
        return None
    data = yield from slurp(fd)
    yield "CLOSE", (fd,), b""
    return data


def udiff(a, b, la, lb, ctx=3):
    """A correct, not minimal, unified diff with one hunk."""
    if a == b:
        return b""
    # splitlines also breaks on \r, \f, ...: only newlines count.
    A = _lines(a)
    B = _lines(b)
    i = 0
    while i < len(A) and i < len(B) and A[i] == B[i]:
        i += 1
    j = 0
    while j < len(A) - i and j < len(B) - i and A[-1 - j] == B[-1 - j]:
        j += 1
    s = max(0, i - ctx)
    t = max(0, j - ctx)
    ha, hb = A[s:len(A) - t], B[s:len(B) - t]
    out = [b"--- " + la + b"\n+++ " + lb + b"\n"]

    def rng(start, n):
        return b"%d,%d" % (start + 1 if n else start, n)
    out.append(b"@@ -" + rng(s, len(ha)) + b" +" + rng(s, len(hb)) + b" @@\n")

    def put(sign, l):
        if l.endswith(b"\n"):
            out.append(sign + l)
        else:
            out.append(sign + l + b"\n\\ No newline at end of file\n")
    for l in A[s:i]:
        put(b" ", l)
    for l in A[i:len(A) - j]:
        put(b"-", l)
    for l in B[i:len(B) - j]:
        put(b"+", l)
    for l in A[len(A) - j:len(A) - t]:
        put(b" ", l)
    return b"".join(out)


def _lines(b):
    out = b.split(b"\n")
    res = [x + b"\n" for x in out[:-1]]
    if out[-1]:
        res.append(out[-1])
    return res


def apply_udiff(orig, diff):
    """Applies a unified diff for one file; None if it does not apply.
    Returns (result, old label, new label)."""
    L = _lines(diff)
    if len(L) < 3 or not L[0].startswith(b"--- ") or \
            not L[1].startswith(b"+++ "):
        return None
    la, lb = L[0][4:-1], L[1][4:-1]
    A = _lines(orig)
    out = []
    pos = 0
    k = 2
    while k < len(L):
        if not L[k].startswith(b"@@ "):
            return None
        parts = L[k].split()

        def rng(x):
            x = x[1:].split(b",")
            return int(x[0]), int(x[1]) if len(x) > 1 else 1
        (sa, na), (sb, nb) = rng(parts[1]), rng(parts[2])
        start = sa - 1 if na else sa
        if start < pos:
            return None
        out += A[pos:start]
        pos = start
        k += 1
        while (na > 0 or nb > 0) or (k < len(L) and L[k][:1] == b"\\"):
            if k >= len(L):
                return None
            c, t = L[k][:1], L[k][1:]
            nonl = k + 1 < len(L) and L[k + 1][:1] == b"\\"
            if nonl:
                t = t[:-1]
            if c in b" -":
                if pos >= len(A) or A[pos] != t:
                    return None
                pos += 1
                na -= 1
            if c in b" +":
                out.append(t)
                nb -= 1
            if c not in b" -+":
                return None
            k += 2 if nonl else 1
        if na or nb:
            return None
    out += A[pos:]
    return b"".join(out), la, lb


def diff_args(argv):
    """(labels, files, options), or None for something diff(1) refuses."""
    labels, files, opts = [], [], set()
    i = 1
    rest = False
    while i < len(argv):
        x = argv[i]
        i += 1
        if rest or x == "-" or not x.startswith("-"):
            files.append(x)
        elif x == "--":
            rest = True
        elif x.startswith("--"):
            n, eq, v = x[2:].partition("=")
            if n == "label":
                if not eq:
                    if i >= len(argv):
                        return None
                    v = argv[i]
                    i += 1
                labels.append(v)
            else:
                o = {"unified": "u", "ignore-space-change": "b",
                     "ignore-all-space": "w", "ignore-case": "i",
                     "ignore-blank-lines": "B", "brief": "q", "text": "a",
                     "show-c-function": "p", "minimal": "d",
                     "strip-trailing-cr": "Z", "color": "N"}.get(n)
                if o is None:
                    return None
                opts.add(o)
        else:
            x = x[1:]
            while x:
                o, x = x[0], x[1:]
                if o in "LUCWFI":
                    if not x:
                        if i >= len(argv):
                            return None
                        x = argv[i]
                        i += 1
                    if o == "L":
                        labels.append(x)
                    opts.add("u" if o == "U" else o)
                    x = ""
                elif o in "ubwBiqapdNrstTZE":
                    opts.add(o)
                elif not o.isdigit():
                    return None
    return (labels, files, opts) if len(files) == 2 and len(labels) <= 2 \
        else None


def ignoring(a, b, opts):
    """b, with what the options tell to ignore as in a."""
    def key(l):
        if "w" in opts:
            l = b"".join(l.split())
        elif opts & {"b", "Z", "E"}:
            l = b" ".join(l.split(None)) if not l[:1].isspace() else \
                b" " + b" ".join(l.split())
        if "i" in opts:
            l = l.lower()
        return l
    A, B = _lines(a), _lines(b)
    if "B" in opts:
        B = [l for l in B if l.strip()]
        if [l for l in A if l.strip()] == B:
            return a
    out = []
    m = difflib.SequenceMatcher(None, [key(l) for l in A],
                                [key(l) for l in B], autojunk=False)
    for what, i, j, x, y in m.get_opcodes():
        out += A[i:j] if what == "equal" else B[x:y]
    return b"".join(out)


def p_diff(prog, argv):
    if prog.get("mode") == "fail":
        yield from spit(2, b"diff: memory exhausted\n")
        return 2
    args = diff_args(argv)
    if args is None:
        yield from spit(2, b"diff: Try 'diff --help' for more information.\n")
        return 2
    labels, files, opts = args
    a = yield from readfile(files[0])
    b = yield from readfile(files[1])
    if a is None or b is None:
        yield from spit(2, b"diff: cannot read\n")
        return 2
    la = (labels[0] if labels else files[0]).encode("utf-8", "surrogateescape")
    lb = (labels[1] if len(labels) > 1 else files[1]).encode(
        "utf-8", "surrogateescape")
    if opts & set("bwBiZE"):
        b = ignoring(a, b, opts)
    d = udiff(a, b, la, lb)
    if not d:
        return 0
    if "q" in opts:
        d = b"Files %s and %s differ\n" % (la, lb)
    elif "u" not in opts:
        d = b"1c1\n" + b"".join(b"< %s\n" % l for l in a.splitlines()) + \
            b"---\n" + b"".join(b"> %s\n" % l for l in b.splitlines())
    ok = yield from spit(1, d)
    if not ok:
        yield from spit(2, b"diff: write error\n")
        return 2
    return 1


def p_clang_format(prog, argv):
    m = prog.get("mode", "ok")
    # Without -dump-config it would format its standard input: nothing.
    out = ""
    if any(x.lstrip("-") == "dump-config" for x in argv):
        out = prog.get("out", "")
        asked = [x.split("=", 1)[1] for x in argv
                 if x.lstrip("-").startswith("style=")]
        if "style" in prog and (not asked or
                                asked[-1].lower() != prog["style"].lower()):
            d = {k.lower(): v for k, v in gen.dumps().items()}
            out = d.get(asked[-1].lower()) if asked else d.get("llvm", "")
            if out is None:
                m, out = "fail", ""
    out = out.encode("latin-1")
    cut = prog.get("cut")
    if m == "fail":
        if cut is not None:
            yield from spit(1, out[:cut])
        yield from spit(2, b"error: unknown style\n")
        return 1
    if m == "killed":
        if cut is not None:
            yield from spit(1, out[:cut])
        yield "KILL", ("self", prog.get("sig", 9)), b""
        return 1
    n = prog.get("chunk", 4096)
    for i in range(0, len(out), n):
        ok = yield from spit(1, out[i:i + n])
        if not ok:
            return 1
    return 0


def p_editor(prog, argv):
    """Another program working on the same files.

    argv: list of steps: write PATH DATA (in place), replace PATH DATA (atomic),
    unlink PATH, mode PATH MODE, touch PATH DATA.
    """
    for st in prog["steps"]:
        what, path = st[0], st[1]
        if what == "unlink":
            yield "UNLINK", (), z(path)
        elif what == "mode":
            yield "CHMOD", (st[2],), z(path)
        elif what == "write":
            fd, _, _ = yield "OPEN", (O_WRONLY | O_CREAT | O_TRUNC, 0o644), z(path)
            if fd >= 0:
                yield from spit(fd, st[2].encode("latin-1"))
                yield "CLOSE", (fd,), b""
        elif what == "replace":
            tmp = path + ".swp"
            fd, _, _ = yield "OPEN", (O_WRONLY | O_CREAT | O_TRUNC, 0o644), z(tmp)
            if fd >= 0:
                yield from spit(fd, st[2].encode("latin-1"))
                yield "CLOSE", (fd,), b""
                yield "RENAME", (), z(tmp) + z(path)
    return 0


def p_reader(prog, argv):
    """Reads a file repeatedly, recording what it saw (a compiler, say)."""
    for _ in range(prog.get("times", 3)):
        d = yield from readfile(prog["path"])
        prog.setdefault("seen", []).append(d)
    return 0


def p_cat(prog, argv):
    """Drains its standard input: the reader at the end of a pipe."""
    d = yield from slurp(0)
    prog.setdefault("seen", []).append(d)
    return 0


TABLE = {"diff": p_diff, "clang-format": p_clang_format, "editor": p_editor,
         "reader": p_reader, "cat": p_cat}


def start(prog, path, argv):
    return TABLE[prog.get("stub") or path.rsplit("/", 1)[-1]](prog, argv)

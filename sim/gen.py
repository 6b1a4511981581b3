"""Workload generation: C sources whose formatted form is known by construction,
corpus files, torn and corrupt variants, diffs and style files.

Everything is drawn from the Rng handed in.
"""
import glob
import os
import re

from kernel import _Rng

HERE = os.path.dirname(os.path.abspath(__file__))
CORPUS = os.path.join(os.path.dirname(HERE), "corpus")


class Rng(_Rng):
    def pick(self, l):
        return l[self.below(len(l))]

    def chance(self, a, b):
        return self.below(b) < a

    def range(self, a, b):
        """a <= x <= b"""
        return a + self.below(b - a + 1)

    def sample(self, l, n):
        l = list(l)
        out = []
        while l and len(out) < n:
            out.append(l.pop(self.below(len(l))))
        return out

    def weighted(self, pairs):
        t = self.below(sum(w for w, _ in pairs))
        for w, v in pairs:
            if t < w:
                return v
            t -= w


def mix(*xs):
    """One 64 bit seed out of many values."""
    h = 0xcbf29ce484222325
    for x in xs:
        for c in str(x).encode() + b"\xff":
            h = ((h ^ c) * 0x100000001b3) & 0xffffffffffffffff
    r = _Rng(h)
    r.next()
    return r.next()


# -- sources with a known formatted form --------------------------------------
class Src:
    """A list of top level constructs: (source, formatted)."""

    def __init__(self, units):
        self.units = units

    @property
    def src(self):
        return "\n".join(a for a, _ in self.units)

    @property
    def want(self):
        return "\n".join(b for _, b in self.units)


class CGen:
    def __init__(self, rng, tag):
        self.r = rng
        self.tag = tag      # makes every identifier unique to one file
        self.n = 0

    def ident(self):
        self.n += 1
        return "%s_%d" % (self.tag, self.n)

    def sp(self, noise):
        """Optional white space."""
        if not noise:
            return ""
        return self.r.pick(["", " ", "  ", "\t", "   "])

    def sp1(self, noise):
        if not noise:
            return " "
        return self.r.pick([" ", "  ", "\t", "    "])

    def expr(self, noise, depth=0):
        r = self.r
        k = r.below(5 if depth < 2 else 2)
        if k == 0:
            return (str(r.below(1000)),) * 2
        if k == 1:
            x = self.ident()
            return x, x
        a, fa = self.expr(noise, depth + 1)
        b, fb = self.expr(noise, depth + 1)
        op = r.pick(["+", "-", "+"])
        if k == 2:
            return (a + self.sp(noise) + op + self.sp(noise) + b,
                    "%s %s %s" % (fa, op, fb))
        if k == 3:
            return ("(" + self.sp(noise) + a + self.sp(noise) + op +
                    self.sp(noise) + b + self.sp(noise) + ")",
                    "(%s %s %s)" % (fa, op, fb))
        f = self.ident()
        return ("%s(%s%s,%s%s)" % (f, self.sp(noise), a, self.sp(noise), b),
                "%s(%s, %s)" % (f, fa, fb))

    def cond(self, noise):
        x = self.ident()
        op = self.r.pick(["<", ">", "==", "!=", "<="])
        n = self.r.below(100)
        return ("%s%s%s%s%d" % (x, self.sp(noise), op, self.sp(noise), n),
                "%s %s %d" % (x, op, n))

    def stmt(self, noise, ind, depth=0):
        """Returns (source lines, formatted lines)."""
        r = self.r
        T = "\t" * ind
        I = (r.pick(["", " ", "  ", "    ", "\t", "\t\t\t"]) if noise else T)
        semi = self.sp(noise) + ";"
        k = r.below(12 if depth < 2 else 4)
        if k == 0:
            a, fa = self.expr(noise)
            if len(fa) > 40:
                fa = a = "0"
            return [I + "return" + self.sp1(noise) + a + semi], \
                [T + "return %s;" % fa]
        if k in (1, 2):
            x = self.ident()
            a, fa = self.expr(noise)
            if len(fa) > 36 - 8 * depth:
                a = fa = self.ident()
            return [I + x + self.sp(noise) + "=" + self.sp(noise) + a + semi], \
                [T + "%s = %s;" % (x, fa)]
        if k == 3:
            f, x = self.ident(), self.ident()
            s = '"%s"' % r.pick(["a  b", "%d\\n", "/* no */", "x;y", ""])
            return [I + f + "(" + self.sp(noise) + x + self.sp(noise) + "," +
                    self.sp(noise) + s + self.sp(noise) + ")" + semi], \
                [T + "%s(%s, %s);" % (f, x, s)]
        body = [self.stmt(noise, ind + 1, depth + 1)
                for _ in range(r.range(1, 3))]
        if k in (4, 5):
            c, fc = self.cond(noise)
            b, fb = self.stmt(noise, ind + 1, 2)
            return [I + "if" + self.sp(noise) + "(" + c + ")" + (
                " " + b[0].lstrip() if noise and r.chance(1, 2) else
                "\n" + b[0])], [T + "if (%s)" % fc] + fb
        bl = [l for b, _ in body for l in b]
        fl = [l for _, b in body for l in b]
        if k == 6:
            c, fc = self.cond(noise)
            return [I + "if" + self.sp(noise) + "(" + c + ")" +
                    self.sp(noise) + "{"] + bl + [I + "}"], \
                [T + "if (%s) {" % fc] + fl + [T + "}"]
        if k == 7:
            c, fc = self.cond(noise)
            b2 = self.stmt(noise, ind + 1, 2)
            return [I + "if" + self.sp(noise) + "(" + c + ")" +
                    self.sp(noise) + "{"] + bl + \
                [I + "}" + self.sp(noise) + "else" + self.sp(noise) + "{"] + \
                b2[0] + [I + "}"], \
                [T + "if (%s) {" % fc] + fl + [T + "} else {"] + b2[1] + \
                [T + "}"]
        if k == 8:
            c, fc = self.cond(noise)
            return [I + "while" + self.sp(noise) + "(" + c + ")" +
                    self.sp(noise) + "{"] + bl + [I + "}"], \
                [T + "while (%s) {" % fc] + fl + [T + "}"]
        if k == 9:
            x = self.ident()
            c, fc = self.cond(noise)
            s = lambda: self.sp(noise)
            return [I + "for" + s() + "(" + x + s() + "=" + s() + "0" + s() +
                    ";" + s() + c + ";" + s() + x + "++)" + s() + "{"] + bl + \
                [I + "}"], \
                [T + "for (%s = 0; %s; %s++) {" % (x, fc, x)] + fl + [T + "}"]
        if k == 10:
            c, fc = self.cond(noise)
            return [I + "do" + self.sp(noise) + "{"] + bl + \
                [I + "}" + self.sp(noise) + "while" + self.sp(noise) + "(" +
                 c + ")" + semi], \
                [T + "do {"] + fl + [T + "} while (%s);" % fc]
        x = self.ident()
        return [I + "switch" + self.sp(noise) + "(" + x + ")" +
                self.sp(noise) + "{", I + "case" + self.sp1(noise) + "1:"] + \
            bl + [I + "break" + semi, I + "default:"] + \
            [I + "break" + semi, I + "}"], \
            [T + "switch (%s) {" % x, T + "case 1:"] + fl + \
            [T + "\tbreak;", T + "default:", T + "\tbreak;", T + "}"]

    def unit(self, noise, kind=None):
        """One top level construct, (source, formatted), newline terminated."""
        r = self.r
        k = kind or r.weighted([(2, "decl"), (2, "str"), (1, "typedef"),
                                (1, "proto"), (1, "define"), (1, "comment"),
                                (1, "struct"), (6, "func")])
        x = self.ident()
        semi = self.sp(noise) + ";\n"
        if k == "decl":
            return "int %s" % x + semi, "int %s;\n" % x
        if k == "str":
            s = "".join(r.pick("abcXYZ019  ;{}/*") for _ in range(r.below(30)))
            s = s.replace("*/", "").replace("/*", "")
            return ("static" + self.sp1(noise) + "const char *" + x +
                    self.sp(noise) + "=" + self.sp(noise) + '"%s"' % s + semi,
                    'static const char *%s = "%s";\n' % (x, s))
        if k == "typedef":
            return ("typedef" + self.sp1(noise) + "unsigned" +
                    self.sp1(noise) + "long %s" % x + semi,
                    "typedef unsigned long %s;\n" % x)
        if k == "proto":
            return ("extern int %s(int%s,%schar *%s)" % (
                x, self.sp(noise), self.sp(noise), self.sp(noise)) + semi,
                "extern int %s(int, char *);\n" % x)
        if k == "define":
            s = "#define %s %d\n" % (x.upper(), r.below(1 << 20))
            return s, s
        if k == "comment":
            s = "/* %s %s */\n" % (x, "".join(
                r.pick("abc  ;{}'\"") for _ in range(r.below(40))))
            s = s.replace("  */", " */")
            return s, s
        if k == "struct":
            s = "struct %s {\n\tint %s;\n\tchar *%s;\n};\n" % (
                x, self.ident(), self.ident())
            return s, s
        a, b = self.ident(), self.ident()
        brk = self.sp1(noise) if noise and r.chance(1, 2) else "\n"
        if "\n" not in brk:
            brk = " "
        head = "int" + brk + "%s(int %s%s,%schar *%s%s)\n{\n" % (
            x, a, self.sp(noise), self.sp(noise), b, self.sp(noise))
        fhead = "int\n%s(int %s, char *%s)\n{\n" % (x, a, b)
        src, want = [], []
        for _ in range(r.range(1, 5)):
            s, w = self.stmt(noise, 1)
            src += s
            want += w
        return (head + "\n".join(src) + "\n}\n",
                fhead + "\n".join(want) + "\n}\n")

    def source(self, nunits, noise=True):
        return Src([self.unit(noise) for _ in range(nunits)])

    def sized(self, size, noise=True, of="src"):
        """A source of exactly size bytes (source or formatted form)."""
        units = []
        total = 0
        while True:
            u = self.unit(noise)
            l = len(u[0] if of == "src" else u[1]) + (1 if units else 0)
            if total + l + 24 > size:
                break
            units.append(u)
            total += l
        # Fill up with comments, which are kept verbatim.
        left = size - total
        while left > 0:
            cost = min(left, 60)
            if 0 < left - cost < 9:
                cost = left - 9 if left - 9 >= 9 else left
            n = cost - (1 if units else 0)
            if n < 8:
                break
            pad = "/* " + "p" * (n - 7) + " */\n"
            units.append((pad, pad))
            left -= cost
        return Src(units)


_corpus = None


def corpus():
    """[(name, bytes)] in a fixed order."""
    global _corpus
    if _corpus is None:
        _corpus = []
        for p in sorted(glob.glob(os.path.join(CORPUS, "*.c"))):
            with open(p, "rb") as f:
                _corpus.append((os.path.basename(p), f.read()))
    return _corpus


# -- torn and corrupt data ---------------------------------------------------
def tear(r, data):
    """What a source can look like after an interrupted or faulty transfer."""
    n = len(data)
    if n == 0:
        return data, "empty"
    k = r.below(10)
    if k <= 2:
        return data[:r.below(n)], "truncated"
    if k == 3:
        i = r.below(n)
        l = min(n - i, r.pick([1, 4, 16, 64, 512]))
        return data[:i] + bytes(l) + data[i + l:], "zeroed"
    if k == 4:
        i = r.below(n)
        l = r.pick([1, 2, 8, 64, 512])
        return data[:i] + data[i + l:], "lost block"
    if k == 5:
        i = r.below(n)
        l = r.pick([1, 8, 64, 512])
        return data[:i] + data[i:i + l] + data[i:], "duplicated block"
    if k == 6:
        b = bytearray(data)
        for _ in range(r.range(1, 4)):
            b[r.below(n)] ^= 1 << r.below(8)
        return bytes(b), "bit flip"
    if k == 7:
        i, j = sorted((r.below(n), r.below(n)))
        l = r.pick([8, 64, 512])
        return (data[:i] + data[j:j + l] + data[i + l:j] + data[i:i + l] +
                data[j + l:]), "misplaced block"
    if k == 8:
        b = bytearray(data)
        b[r.below(n)] = r.below(256)
        return bytes(b), "byte"
    i = r.below(n)
    return data[:i] + b"\r\n" + data[i:], "line ending"


def twist(r, s):
    k = r.below(9)
    i = r.below(len(s) + 1)
    if k <= 1:
        return "\xef\xbb\xbf" + s
    if k == 2:
        return s.replace("\n", "\r\n")
    if k == 3:
        return s.replace("\n", "\r\n", r.range(1, 5))
    if k == 4:
        return "".join(r.pick([" \n", "\t\n", "\n", "\n"]) if c == "\n" else c
                       for c in s)
    if k == 5:
        # Within a comment anything goes.
        return "/* " + "".join(chr(r.pick([0xe5, 0xff, 0xc3, 0xa4, 0x1b, 7, 1,
                                            127, 12, 11, 65]))
                               for _ in range(r.range(1, 40))) + " */\n\n" + s
    if k == 6:
        return s[:i] + r.pick(["\f", "\v", "\0", "\x1a", "\xa0", "\\\n"]) + \
            s[i:]
    if k == 7:
        return s + r.pick(["\x1a", "\0", "\f\n", "\r", "\\\n", "/**/", "//"])
    return s.rstrip("\n") + r.pick(["", "\n\n\n"])


def includes(r, own):
    """Include directives with ties: same but for case, repeated, own header."""
    pool = ["a.h", "A.h", "b.h", "B.h", "a/b.h", "a-b.h", "a_b.h", "ab.h",
            "sys/a.h", "sys/types.h", "sys/param.h", "SYS/A.h", own + ".h",
            own + ".h", own + ".h", own + "-x.h", "x/" + own + ".h", "a.H", "b.c", "zz.h", "0.h"]
    out = []
    many = r.chance(1, 12)
    for _ in range(r.range(1, 3)):
        # Kinds are not mixed as a rule.
        quote = r.pick([["<%s>"], ["\"%s\""], ["\"%s\""],
                        ["<%s>", "\"%s\""]])
        if r.chance(1, 2):
            out.append("#include \"%s.h\"" % own)
        for _ in range(r.range(200, 700) if many else r.range(1, 9)):
            n = r.pick(pool)
            q = r.pick(quote) % n
            out.append("#%sinclude%s%s%s" % (
                r.pick(["", "", "", " "]), r.pick([" ", " ", " ", "\t", ""]), q,
                r.pick(["", "", "", "\t/* %s */" % n, " // %s" % n])))
        out.append(r.pick(["", "", "/* c */", "#define X 1", "int x;",
                           "#ifdef X\n#include <%s>\n#endif" % r.pick(pool)]))
    return "\n".join(out) + "\n\nint y_%s;\n" % re.sub("[^a-z0-9]", "", own)


def clamp(style):
    """A style must not ask for gigabytes of padding, which knfmt would rightly
    produce."""
    return "\n".join(l if "Priority:" in l else
                     re.sub("[0-9]{4,}", lambda m: str(int(m.group()) % 1000),
                            l) for l in style.split("\n"))


ENVS = {
    "COLUMNS": ["10", "40", "80", "132", "x"], "LINES": ["5", "24"],
    "TERM": ["dumb", "xterm-256color", None], "HOME": ["/", "/w", "/root", None],
    "LANG": ["C", "en_US.UTF-8", "de_DE.ISO8859-1", None],
    "LC_ALL": ["C.UTF-8", "tr_TR.UTF-8", "POSIX"], "TZ": ["UTC", "Asia/Tokyo"],
    "USER": ["root", "joe"], "LOGNAME": ["joe"], "PWD": ["/", "/w", "/else"],
    "OLDPWD": ["/"], "SHELL": ["/bin/sh"], "EDITOR": ["vi"],
    "NO_COLOR": ["1"], "CLICOLOR_FORCE": ["1"], "FORCE_COLOR": ["1"],
    "COLORTERM": ["truecolor"], "XDG_CONFIG_HOME": ["/w", "/etc"],
    "DEBUG": ["1"], "CI": ["true"], "GIT_DIR": ["/w/.git", "/else"],
    "GIT_PREFIX": ["sub/"], "GIT_WORK_TREE": ["/"], "SOURCE_DATE_EPOCH": ["1"],
    "MALLOC_OPTIONS": ["S"], "KNFMT_OPTIONS": ["-s"], "TABSIZE": ["4"],
    "CLANG_FORMAT_STYLE": ["LLVM"], "HOSTNAME": ["sim"], "SHLVL": ["2"],
}


def randenv(r):
    """Environment variables, none of which knfmt should care about."""
    return {k: r.pick(ENVS[k]) for k in sorted(ENVS) if r.chance(1, 2)}


def randalloc(r, size=0):
    """Where memory lies and what it holds before it is written."""
    return {"seed": r.below(1 << 62), "fill": r.below(3), "topdown": r.below(2),
            "move": r.below(2), "gaps": r.below(2), "poison": r.below(2),
            "reuse": r.below(2) | (size > 30000)}


_styles = None


def styles():
    """Style files: [(text)] taken from the corpus plus dumps of clang-format."""
    global _styles
    if _styles is None:
        _styles = []
        for name, data in corpus():
            if not name.startswith("style-"):
                continue
            t = data.decode("latin-1")
            if not t.startswith("/*\n"):
                continue
            body = t[3:t.find("*/")].split("\n")
            s = "".join(l[3:] + "\n" for l in body if l.startswith(" * "))
            s = clamp(s)
            if ":" in s and "BasedOnStyle" not in s and s not in _styles:
                _styles.append(s)
    return _styles


_dumps = None


def dumps():
    """What clang-format -dump-config prints, by style."""
    global _dumps
    if _dumps is None:
        _dumps = {}
        for p in sorted(glob.glob(os.path.join(CORPUS, "styles", "*.yaml"))):
            with open(p, "rb") as f:
                _dumps[os.path.basename(p)[:-5]] = f.read().decode("latin-1")
    return _dumps


_patches = None


def patches():
    """[(name, patch text, source text)]"""
    global _patches
    if _patches is None:
        _patches = []
        src = dict(corpus())
        for p in sorted(glob.glob(os.path.join(CORPUS, "*.patch"))):
            n = os.path.basename(p)[:-6]
            with open(p, "rb") as f:
                _patches.append((n + ".c", f.read().decode("latin-1"),
                                 src[n + ".c"].decode("latin-1")))
    return _patches

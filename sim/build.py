"""Builds the simulated knfmt from /repo's current working tree.

Every translation unit of the knfmt program is compiled unmodified, linked into
one relocatable object, and its references to the operating system and the
allocator are redirected to simlibc. Nothing is written below /repo.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

# What gcc only warns about does not stop clang either.
WARN = ["-w", "-Wno-error=implicit-function-declaration",
        "-Wno-error=int-conversion"]
BASE = ["-g", "-fno-omit-frame-pointer", "-D_FORTIFY_SOURCE=0",
        "-U_FORTIFY_SOURCE"]
VARIANTS = {
    # name: (compiler, cflags, ldflags)
    "plain": ("gcc", ["-O1"], []),
    "zero": ("clang", ["-O1", "-ftrivial-auto-var-init=zero"], []),
    "pattern": ("clang", ["-O1", "-ftrivial-auto-var-init=pattern"], []),
    "work": ("clang", ["-O1", "-fno-inline",
                       "-fsanitize-coverage=edge,trace-pc-guard"], []),
    "asan": ("clang", ["-O1", "-fsanitize=address,undefined",
                       "-fno-sanitize-recover=undefined"],
             ["-fsanitize=address,undefined"]),
}

# Symbols of the C library that reach the operating system or the allocator.
SEAM = """
open open64 creat creat64 openat openat64 close read write pread pread64 pwrite pwrite64
readv writev lseek lseek64 fstat fstat64 stat stat64 lstat lstat64 fstatat
fstatat64 access faccessat mkstemp mkstemp64 mkostemp mkostemp64 mkstemps
rename renameat link symlink readlink unlink remove unlinkat rmdir mkdir fchmod
chmod fchown chown lchown umask fsync fdatasync sync ftruncate ftruncate64
truncate truncate64 pipe pipe2 dup dup2 dup3 fcntl fcntl64 flock isatty
realpath getcwd chdir fchdir futimens utimensat utimes utime ioctl opendir
fdopendir readdir readdir64 closedir dirfd rewinddir glob glob64 mkdtemp renameat2 linkat
symlinkat readlinkat mkdirat fchmodat fchownat copy_file_range sendfile
sendfile64 fallocate fallocate64 posix_fallocate posix_fallocate64 syncfs posix_fadvise posix_fadvise64
sleep usleep nanosleep alarm poll getrlimit getrlimit64 setrlimit setrlimit64
gethostname raise posix_spawn posix_spawnp posix_spawn_file_actions_init
posix_spawn_file_actions_destroy posix_spawn_file_actions_addclose
posix_spawn_file_actions_adddup2 posix_spawn_file_actions_addopen mmap mmap64 fork vfork execl execlp execv
execve execvp waitpid wait wait4 _exit _Exit getpid getppid getuid geteuid
getgid getegid kill signal sigaction __assert_fail abort time gettimeofday
clock_gettime arc4random getrandom getentropy fdopen fopen fopen64 fileno
dprintf vdprintf malloc calloc realloc reallocarray free strdup strndup
asprintf vasprintf regcomp regexec qsort
""".split()
ALIAS = {"vfork": "fork", "geteuid": "getuid", "getegid": "getgid",
         "_Exit": "_exit"}
# Library functions whose effort is counted.
WALK = """memchr memcmp memcpy memmove memset strlen strnlen strcmp strncmp
strchr strrchr strstr""".split()
# Known to neither block, fail on resources nor touch the outside world.
PURE = re.compile(
    r"^(mem|bcmp|str|wcs|__ctype|is|to(lower|upper)|_?_?(v?s?n?printf|v?fprintf)"
    r"|f?put[cs]|putc|putchar|puts|fwrite|fread|fflush|perror|ferror|feof"
    r"|clearerr|setlocale|nl_langinfo|globfree|sig(empty|add|fill|del)set|sigprocmask|localtime|gmtime|mktime|secure_getenv|setenv|unsetenv|madvise|fgets|fgetc|getc|getline|getdelim|fclose|setvbuf|rewind|fseek"
    r"|ftell|v?warnx?|v?errx?|v?err|exit|atexit|on_exit|getenv|bsearch"
    r"|reg|sysconf|getopt|optarg|optind|opterr|stdout|stderr|stdin|__errno"
    r"|__asan|__ubsan|__sanitizer|__stack_chk|_GLOBAL|abs|labs|ato|rand|srand"
    r"|basename|dirname|__xpg|__isoc|sscanf|environ|error|fnmatch|pow|log"
    r"|_DYNAMIC|__libc|__start|__stop|munmap|raw?mem|err$|open_memstream)")


def sources():
    """The translation units of the knfmt program according to its Makefile."""
    mk = open(os.path.join(REPO, "Makefile")).read()
    mk = mk.replace("\\\n", " ")
    vals = {}
    for m in re.finditer(r"^(SRCS\w*)\s*[+:?]?=\s*(.*)$", mk, re.M):
        vals.setdefault(m.group(1), []).extend(m.group(2).split())
    out = []

    def expand(name):
        for w in vals.get(name, []):
            m = re.fullmatch(r"\$[{(](\w+)[})]", w)
            if m:
                expand(m.group(1))
            elif w.endswith((".c", ".S")):
                out.append(w)
    expand("SRCS_knfmt")
    res = []
    for w in out:
        for d in ("", "libks/"):
            p = os.path.join(REPO, d + w)
            if os.path.exists(p):
                if p not in res:
                    res.append(p)
                break
    if not any(os.path.basename(p) == "knfmt.c" for p in res):
        res = [p for p in sorted(glob.glob(REPO + "/*.c"))
               if not re.search(r"/(t|fuzz-\w+)\.c$", p)]
        res += sorted(glob.glob(REPO + "/libks/*.[cS]"))
    # Assembly may be listed through a variable we do not expand.
    for p in sorted(glob.glob(REPO + "/libks/*.S")):
        if p not in res:
            res.append(p)
    return res


def tree_hash():
    h = hashlib.sha256()
    pats = ["*.c", "*.h", "libks/*.c", "libks/*.h", "libks/*.S", "Makefile"]
    for pat in pats:
        for p in sorted(glob.glob(os.path.join(REPO, pat))):
            h.update(os.path.relpath(p, REPO).encode() + b"\0")
            h.update(open(p, "rb").read() + b"\0")
    for p in ("simlibc.c", "ops.def", "build.py"):
        h.update(open(os.path.join(HERE, p), "rb").read())
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd),
                                     p.stdout.decode(errors="replace")[-4000:]))
    return p.stdout.decode(errors="replace")


def build_variant(name, out, pool):
    cc, cflags, ldflags = VARIANTS[name]
    tmp = "%s.tmp%d" % (out, os.getpid())
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    inc = os.path.join(tmp, "include")
    os.makedirs(inc)
    if not os.path.exists(os.path.join(REPO, "config.h")):
        with open(os.path.join(inc, "config.h"), "w") as f:
            f.write("#ifndef CONFIG_H\n#define CONFIG_H\n"
                    "int pledge(const char *, const char *);\n#endif\n")
    objs = []
    jobs = []
    for i, src in enumerate(sources()):
        obj = os.path.join(tmp, "%03d-%s.o" % (i, os.path.basename(src)))
        objs.append(obj)
        jobs.append(pool.submit(run, [cc] + BASE + cflags + WARN +
                                ["-I" + REPO, "-I" + inc, "-c", src, "-o",
                                 obj]))
    sim = os.path.join(tmp, "simlibc.o")
    jobs.append(pool.submit(run, [cc, "-g", "-O2", "-fno-builtin", "-w",
                                  "-D_FORTIFY_SOURCE=0"] +
                            ([f for f in cflags if "address" in f]
                             and ["-fsanitize=address"] or []) +
                            ["-fno-omit-frame-pointer", "-c", os.path.join(HERE, "simlibc.c"), "-o",
                             sim]))
    for j in jobs:
        j.result()
    allo = os.path.join(tmp, "all.o")
    run(["ld", "-r", "-o", allo] + objs)
    und = [l.split()[-1] for l in run(["nm", "-u", allo]).splitlines() if l]
    und = [s.split("@")[0] for s in und]
    redef = ["main knfmt_main"]
    unknown = []
    for s in und:
        base = s
        if base in SEAM:
            base = ALIAS.get(base, base)
            if base.endswith("64"):
                base = base[:-2]
            redef.append("%s sim_%s" % (s, base))
        elif name == "work" and s in WALK:
            redef.append("%s work_%s" % (s, s))
        elif not PURE.match(s):
            unknown.append(s)
    with open(os.path.join(tmp, "redef"), "w") as f:
        f.write("\n".join(redef) + "\n")
    run(["objcopy", "--redefine-syms=" + os.path.join(tmp, "redef"), allo])
    exe = os.path.join(tmp, "simknfmt")
    run([cc] + ldflags + ["-o", exe, allo, sim])
    with open(os.path.join(tmp, "unknown"), "w") as f:
        f.write("\n".join(unknown) + "\n")
    for o in objs + [allo, sim]:
        os.unlink(o)
    shutil.rmtree(out, ignore_errors=True)
    os.rename(tmp, out)


def build(variants):
    """Returns {variant: path of the executable}, building what is missing."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        h = tree_hash()
        top = os.path.join(BUILD, h)
        # Only the current tree's build is kept.
        for d in os.listdir(BUILD):
            p = os.path.join(BUILD, d)
            if d != h and os.path.isdir(p) and re.fullmatch("[0-9a-f]{20}", d):
                shutil.rmtree(p, ignore_errors=True)
        os.makedirs(top, exist_ok=True)
        res = {}
        with cf.ThreadPoolExecutor(os.cpu_count() or 4) as pool:
            todo = []
            for v in variants:
                out = os.path.join(top, v)
                res[v] = os.path.join(out, "simknfmt")
                if not os.path.exists(res[v]):
                    todo.append((v, out))
            with cf.ThreadPoolExecutor(4) as outer:
                list(outer.map(lambda t: build_variant(t[0], t[1], pool),
                               todo))
        return res


def unknown_symbols(exe):
    p = os.path.join(os.path.dirname(exe), "unknown")
    return [l for l in open(p).read().split() if l]


if __name__ == "__main__":
    r = build(sys.argv[1:] or list(VARIANTS))
    for k, v in r.items():
        print(k, v, unknown_symbols(v))

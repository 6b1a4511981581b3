"""The simulated machine: file system with a durability model, processes, pipes.

Real knfmt code runs in forked images of the fork server (simlibc.c), parked at
every operating system call. This module answers those calls. Nothing here
reads a clock, a random source or the real file system: a run is a function of
the scenario (see run.py) alone.
"""
import array
import errno as E
import os
import socket
import stat as S
import struct
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
OPS = [l.strip()[3:-1] for l in open(os.path.join(HERE, "ops.def")) if l.strip()]
OPN = {n: i for i, n in enumerate(OPS)}
REQ = struct.Struct("=IIqqqq")
REP = struct.Struct("=qiI")

O_WRONLY, O_RDWR, O_CREAT, O_EXCL, O_TRUNC, O_APPEND = 1, 2, 0o100, 0o200, 0o1000, 0o2000
O_DIRECTORY, O_NOFOLLOW, O_CLOEXEC = 0o200000, 0o400000, 0o2000000
AT_FDCWD = -100
PIPE_BUF = 65536
SIGPIPE, SIGKILL, SIGABRT = 13, 9, 6

NAMECHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


class OSErr(Exception):
    def __init__(self, e):
        self.errno = e


class Block(Exception):
    """The call cannot complete now."""


class Died(Exception):
    """The process is gone; there is nobody to answer."""


class SimError(Exception):
    """The simulator itself is broken: never a verdict on the property."""


class Inode:
    __slots__ = ("ino", "kind", "data", "durable", "mode", "uid", "gid",
                 "nlink", "mtime", "entries", "parent", "readers", "writers",
                 "cap", "limit", "wberr", "writes", "origin", "maxmode", "tag",
                 "tty", "touched", "fail")

    def __init__(self, ino, kind, mode, uid=0, gid=0):
        self.ino = ino
        self.kind = kind        # f file, d directory, l symlink, p pipe, s sink
        self.mode = mode
        self.uid = uid
        self.gid = gid
        self.nlink = 0
        self.mtime = 0
        self.data = bytearray()
        self.durable = b""      # what survives a power loss for sure
        self.entries = {} if kind == "d" else None
        self.parent = None
        self.readers = self.writers = 0
        self.cap = PIPE_BUF
        self.limit = None       # sink: bytes accepted before the reader leaves
        self.wberr = 0
        self.writes = 0
        self.origin = None
        self.maxmode = mode
        self.tag = None
        self.tty = None         # terminal width
        self.touched = 0
        self.fail = None        # sink: (bytes accepted, error from then on)


class OFD:
    __slots__ = ("inode", "pos", "flags", "refs", "end")

    def __init__(self, inode, flags, end=None):
        self.inode = inode
        self.pos = 0
        self.flags = flags
        self.refs = 0
        self.end = end


class Proc:
    def __init__(self, idx, pid, name):
        self.idx = idx
        self.pid = pid
        self.name = name
        self.ppid = 1
        self.sock = None
        self.buf = b""
        self.gen = None
        self.stub = False
        self.rpid = None
        self.fds = {}
        self.cwd = None
        self.umask = 0o022
        self.uid = self.gid = 0
        self.sigpipe_ign = False
        self.pending = None
        self.dead = False
        self.status = None      # wait(2) status
        self.reaped = False
        self.nops = 0
        self.opc = {}
        self.peakfd = 0
        self.crash = None
        self.killed = False     # by a fault
        self.faulted = 0        # faults that hit this process
        self.main = False
        self.exec_name = None
        self.spawn_error = 0
        self.same = None        # the last call, as long as it is in vain
        self.nsame = 0


class Kernel:
    def __init__(self, sc):
        self.sc = sc
        self.nextino = 100
        self.ids = {}           # inode: (device, number) as seen by stat
        self.nextpid = 100
        self.procs = []
        self.bypid = {}
        self.root = Inode(1, "d", 0o40755)
        self.root.parent = self.root
        self.root.nlink = 2
        self.gen = 0
        self.step = 0
        self.trace = []
        self.crc = 0
        self.fired = []         # faults that actually happened
        self.journal = []       # metadata changes since the last commit
        self.base = None        # durable namespace
        self.unlinked = []
        self.created = []       # every inode created during the run
        self.faults = {}
        for f in sc.get("faults", ()):
            self.faults.setdefault((f.get("p", 0), f.get("op"), f["n"]), f)
        self.last = [f for f in sc.get("faults", ()) if f.get("on")]
        k = sc.get("knobs", {})
        self.rchunk = k.get("rchunk") or None
        self.wchunk = k.get("wchunk") or None
        self.nrd = self.nwr = 0
        self.disk_free = k.get("disk_free")
        self.fdlimit = k.get("fdlimit", 256)
        self.pipecap = k.get("pipecap", PIPE_BUF)
        self.rng = k.get("rng", 1) & 0xffffffffffffffff
        self.sigpipe_ign = bool(k.get("sigpipe_ign"))
        self.nextpid = k.get("pid", 100)
        self.epoch = k.get("epoch", 1700000000)
        self.powered = True
        self.maxdirty = 0

    def lasting(self, idx, op, c):
        """A failure that persists from some call on."""
        for f in self.last:
            if f.get("p", 0) == idx and f["op"] == op and c > f["n"]:
                return f
        return None

    # -- randomness visible to the program ---------------------------------
    def rand(self):
        self.rng = (self.rng * 6364136223846793005 + 1442695040888963407) & \
            0xffffffffffffffff
        return self.rng >> 33

    # -- namespace -----------------------------------------------------------
    def mount(self, paths):
        """Each path is the root of a file system of its own; roots all have
        the same inode number, as they do in practice."""
        self.ids[self.root.ino] = (1, 2)
        for i, path in enumerate(sorted(paths)):
            d = self.mkdirs(path)
            for n in self.files(d).values():
                self.ids[n.ino] = (i + 2, n.ino)
            self.ids[d.ino] = (i + 2, 2)

    def new_inode(self, kind, mode, uid=0, gid=0):
        i = Inode(self.nextino, kind, mode, uid, gid)
        self.nextino += 1
        return i

    def mkdirs(self, path, mode=0o40755, uid=0, gid=0):
        d = self.root
        for c in path.split("/"):
            if not c:
                continue
            n = d.entries.get(c)
            if n is None:
                n = self.new_inode("d", mode, uid, gid)
                n.parent = d
                n.nlink = 2
                d.entries[c] = n
            d = n
        return d

    def put(self, path, data, mode=0o644, uid=0, gid=0):
        """Initial, durable contents."""
        dn, _, base = path.rpartition("/")
        d = self.mkdirs(dn)
        n = self.new_inode("f", S.S_IFREG | mode, uid, gid)
        n.data = bytearray(data)
        n.durable = bytes(data)
        n.nlink = 1
        n.origin = path
        d.entries[base] = n
        return n

    def put_symlink(self, path, target):
        dn, _, base = path.rpartition("/")
        d = self.mkdirs(dn)
        n = self.new_inode("l", S.S_IFLNK | 0o777)
        n.data = bytearray(target.encode())
        n.nlink = 1
        d.entries[base] = n

    def path_of(self, d):
        if d is self.root:
            return "/"
        parts = []
        while d is not self.root:
            p = d.parent
            for k, v in p.entries.items():
                if v is d:
                    parts.append(k)
                    break
            d = p
        return "/" + "/".join(reversed(parts))

    def perm(self, p, n, want):
        if p.uid == 0:
            return
        m = n.mode
        if p.uid == n.uid:
            m >>= 6
        elif p.gid == n.gid:
            m >>= 3
        if (m & want) != want:
            raise OSErr(E.EACCES)

    def walk(self, p, path, start=None, follow=True, parent=False, depth=0):
        """Resolve path; with parent, return (directory, last component)."""
        if path == "":
            raise OSErr(E.ENOENT)
        if len(path) >= 4096:
            raise OSErr(E.ENAMETOOLONG)
        d = self.root if path[0] == "/" else (start or p.cwd)
        comps = [c for c in path.split("/") if c and c != "."]
        trailing = path.endswith("/")
        i = 0
        while i < len(comps):
            c = comps[i]
            if d.kind != "d":
                raise OSErr(E.ENOTDIR)
            self.perm(p, d, 1)
            if len(c) > 255:
                raise OSErr(E.ENAMETOOLONG)
            last = i == len(comps) - 1
            if last and parent and c != "..":
                return d, c
            if c == "..":
                d = d.parent
                i += 1
                continue
            n = d.entries.get(c)
            if n is None:
                raise OSErr(E.ENOENT)
            if n.kind == "l" and (not last or follow or trailing):
                if depth > 8:
                    raise OSErr(E.ELOOP)
                rest = "/".join(comps[i + 1:])
                tgt = n.data.decode()
                return self.walk(p, tgt + ("/" + rest if rest else ""), d,
                                 follow, parent, depth + 1)
            d = n
            i += 1
        if trailing and d.kind != "d":
            raise OSErr(E.ENOTDIR)
        if parent:
            raise OSErr(E.EISDIR)
        return d

    def lookup(self, path):
        """For oracles: the inode at an absolute path, without following."""
        d = self.root
        for c in path.split("/"):
            if not c:
                continue
            if d is None or d.kind != "d":
                return None
            d = d.entries.get(c)
        return d

    def files(self, d=None, prefix=""):
        """All names below d."""
        d = d or self.root
        out = {}
        for k, v in d.entries.items():
            out[prefix + "/" + k] = v
            if v.kind == "d":
                out.update(self.files(v, prefix + "/" + k))
        return out

    # Metadata changes go through these two so that the journal knows them.
    def ns_set(self, d, name, n):
        old = d.entries.get(name)
        if old is not None:
            old.nlink -= 1
        d.entries[name] = n
        n.nlink += 1
        self.journal.append((d, name, n))
        self.gen += 1

    def ns_del(self, d, name):
        n = d.entries.pop(name)
        n.nlink -= 1
        self.journal.append((d, name, None))
        self.gen += 1

    # -- durability ------------------------------------------------------------
    def snapshot_base(self):
        self.base = {}

        def rec(d):
            self.base[d.ino] = (d, dict(d.entries))
            for v in d.entries.values():
                if v.kind == "d":
                    rec(v)
        rec(self.root)
        self.journal = []

    def commit(self):
        """Journal commit: all metadata so far is durable."""
        self.replay(self.journal)
        self.journal = []

    def replay(self, recs):
        for r in recs:
            if isinstance(r, _Multi):
                self.replay(r)
                continue
            d, name, n = r
            ent = self.base.setdefault(d.ino, (d, {}))[1]
            if n is None:
                ent.pop(name, None)
            else:
                ent[name] = n

    def power_loss(self, seed):
        """Discard what was not durable.

        A prefix of the metadata journal survives; the data of a file that was
        not synced may be whole, missing, cut short or zeroes.
        """
        r = _Rng(seed)
        keep = r.below(len(self.journal) + 1) if r.below(3) else len(self.journal)
        self.replay(self.journal[:keep])
        seen = set()
        for d, ent in list(self.base.values()):
            d.entries = dict(ent)
            for n in ent.values():
                if n.kind == "f" and n.ino not in seen:
                    seen.add(n.ino)
                    if bytes(n.data) != n.durable:
                        c = r.below(4)
                        if c == 0:
                            n.data = bytearray(n.durable)
                        elif c == 1:
                            n.data = n.data[:r.below(len(n.data) + 1)]
                        elif c == 2:
                            n.data = bytearray(len(n.data))
                    n.durable = bytes(n.data)
        self.journal = []
        self.powered = False
        self.gen += 1
        for p in self.procs:
            if not p.dead:
                self.kill_proc(p, SIGKILL)

    def writeback_failed(self, n):
        """Buffered data of n could not reach the device."""
        n.wberr = 0
        keep = len(n.durable)
        n.data = bytearray(n.durable if keep else n.data[:len(n.data) // 2])
        self.gen += 1

    # -- descriptors -----------------------------------------------------------
    def fd(self, p, fd):
        e = p.fds.get(fd)
        if e is None:
            raise OSErr(E.EBADF)
        return e[0]

    def install(self, p, ofd, cloexec=False, at=None):
        if at is None:
            at = 0
            while at in p.fds:
                at += 1
            if at >= self.fdlimit:
                raise OSErr(E.EMFILE)
        ofd.refs += 1
        p.fds[at] = (ofd, cloexec)
        if len(p.fds) > p.peakfd:
            p.peakfd = len(p.fds)
        return at

    def open_inode(self, n, flags, end=None):
        o = OFD(n, flags, end)
        return o

    def new_ofd(self, n, flags, end=None):
        o = OFD(n, flags, end)
        if n.kind == "p":
            if end == "r":
                n.readers += 1
            else:
                n.writers += 1
        return o

    def drop(self, o):
        o.refs -= 1
        if o.refs == 0 and o.inode.kind == "p":
            if o.end == "r":
                o.inode.readers -= 1
            else:
                o.inode.writers -= 1

    def do_open(self, p, path, flags, mode, start=None):
        cloexec = bool(flags & O_CLOEXEC)
        acc = flags & 3
        fdn = None
        if path.startswith("/dev/"):
            if path == "/dev/stdin":
                fdn = 0
            elif path == "/dev/stdout":
                fdn = 1
            elif path == "/dev/stderr":
                fdn = 2
            elif path == "/dev/null":
                n = Inode(0, "s", S.S_IFCHR | 0o666)
                n.tag = "null"
                return self.install(p, self.new_ofd(n, flags), cloexec)
        if path.startswith("/dev/fd/") or path.startswith("/proc/self/fd/"):
            t = path.rsplit("/", 1)[1]
            if not t.isdigit():
                raise OSErr(E.ENOENT)
            fdn = int(t)
        if fdn is not None:
            e = p.fds.get(fdn)
            if e is None:
                raise OSErr(E.ENOENT)
            o = e[0]
            return self.install(p, self.new_ofd(o.inode, flags, o.end), cloexec)
        n = None
        if flags & O_CREAT:
            d, name = self.walk(p, path, start, parent=True)
            ex = d.entries.get(name)
            if ex is not None and (flags & O_EXCL):
                raise OSErr(E.EEXIST)
            if ex is None:
                self.perm(p, d, 3)
                if self.disk_free is not None and self.disk_free <= 0 and \
                        self.sc.get("knobs", {}).get("inode_full"):
                    raise OSErr(E.ENOSPC)
                n = self.new_inode("f", S.S_IFREG | (mode & ~p.umask & 0o7777),
                                   p.uid, p.gid)
                n.origin = (self.path_of(d).rstrip("/") or "") + "/" + name
                self.created.append(n)
                self.ns_set(d, name, n)
                o = self.new_ofd(n, flags)
                try:
                    return self.install(p, o, cloexec)
                except OSErr:
                    self.ns_del(d, name)
                    raise
        n = self.walk(p, path, start, follow=not flags & O_NOFOLLOW)
        if n.kind == "l":
            raise OSErr(E.ELOOP)
        if n.kind == "d" and acc:
            raise OSErr(E.EISDIR)
        if flags & O_DIRECTORY and n.kind != "d":
            raise OSErr(E.ENOTDIR)
        self.perm(p, n, {0: 4, 1: 2, 2: 6}.get(acc, 6))
        at = self.install(p, self.new_ofd(n, flags), cloexec)
        if flags & O_TRUNC and acc and n.kind == "f" and n.data:
            n.data = bytearray()
            n.writes += 1
            self.gen += 1
        return at

    # -- calls -------------------------------------------------------------------
    # Each returns (ret, payload).
    def op_OPEN(self, p, a, pay):
        return self.do_open(p, cstr(pay), a[0], a[1]), b""

    def dirfd(self, p, fd):
        if fd == AT_FDCWD:
            return p.cwd
        n = self.fd(p, fd).inode
        if n.kind != "d":
            raise OSErr(E.ENOTDIR)
        return n

    def op_OPENAT(self, p, a, pay):
        path = cstr(pay)
        start = None if path.startswith("/") else self.dirfd(p, a[0])
        return self.do_open(p, path, a[1], a[2], start), b""

    def op_CLOSE(self, p, a, pay):
        e = p.fds.pop(a[0], None)
        if e is None:
            raise OSErr(E.EBADF)
        self.drop(e[0])
        n = e[0].inode
        if n.wberr:
            err = n.wberr
            self.writeback_failed(n)
            raise OSErr(err)
        return 0, b""

    def op_READ(self, p, a, pay, limit=None):
        o = self.fd(p, a[0])
        n = o.inode
        want = a[1]
        if (o.flags & 3) == O_WRONLY or o.end == "w":
            raise OSErr(E.EBADF)
        if n.kind == "d":
            raise OSErr(E.EISDIR)
        if n.kind == "s":
            return 0, b""
        if want == 0:
            return 0, b""
        if n.kind == "p" and not n.data:
            if n.writers:
                raise Block()
            return 0, b""
        if self.rchunk and self.nrd < 4000:
            c = self.rchunk[self.nrd % len(self.rchunk)]
            self.nrd += 1
            if c:
                want = min(want, c)
        if limit is not None:
            want = min(want, limit)
        if n.kind == "p":
            out = bytes(n.data[:want])
            del n.data[:len(out)]
        else:
            out = bytes(n.data[o.pos:o.pos + want])
            o.pos += len(out)
        return len(out), out

    def op_WRITE(self, p, a, pay, limit=None, lose=0):
        o = self.fd(p, a[0])
        n = o.inode
        want = len(pay)
        if o.end == "r" or ((o.flags & 3) == 0 and n.kind in "fd"):
            raise OSErr(E.EBADF)
        if n.kind == "s" and n.tag == "null":
            return want, b""
        if self.wchunk and self.nwr < 4000 and n.tag != "stderr" and want:
            c = self.wchunk[self.nwr % len(self.wchunk)]
            self.nwr += 1
            if c:
                want = min(want, c)
        if limit is not None:
            want = min(want, max(limit, 0 if want == 0 else 1))
        if n.kind in "ps":
            closed = n.readers == 0 if n.kind == "p" else \
                (n.limit is not None and len(n.data) >= n.limit)
            if closed and want:
                if not p.sigpipe_ign:
                    self.kill_proc(p, SIGPIPE)
                    raise Died()
                raise OSErr(E.EPIPE)
            if n.kind == "p":
                room = n.cap - len(n.data)
                if room <= 0:
                    raise Block()
                want = min(want, room)
            elif n.limit is not None:
                want = min(want, n.limit - len(n.data))
            elif n.fail is not None and want:
                want = min(want, n.fail[0] - len(n.data))
                if want <= 0:
                    self.fired.append(("errno", "WRITE", n.fail[1]))
                    raise OSErr(n.fail[1])
            n.data += pay[:want]
            return want, b""
        if self.disk_free is not None:
            grow = max(0, (o.pos + want) - len(n.data))
            if grow > self.disk_free:
                want -= grow - self.disk_free
                if want <= 0:
                    raise OSErr(E.ENOSPC)
                grow = self.disk_free
            self.disk_free -= grow
        if o.flags & O_APPEND:
            o.pos = len(n.data)
        if o.pos > len(n.data):
            n.data += bytes(o.pos - len(n.data))
        n.data[o.pos:o.pos + want] = pay[:want]
        o.pos += want
        n.writes += 1
        n.mtime = self.step
        self.gen += 1
        if lose:
            n.wberr = lose
        return want, b""

    def op_PREAD(self, p, a, pay):
        n = self.fd(p, a[0]).inode
        if n.kind != "f":
            raise OSErr(E.ESPIPE)
        out = bytes(n.data[a[2]:a[2] + a[1]])
        return len(out), out

    def op_PWRITE(self, p, a, pay):
        o = self.fd(p, a[0])
        save, o.pos = o.pos, a[2]
        try:
            return self.op_WRITE(p, a, pay)
        finally:
            o.pos = save

    def op_LSEEK(self, p, a, pay):
        o = self.fd(p, a[0])
        if o.inode.kind in "ps":
            raise OSErr(E.ESPIPE)
        if a[2] == 0:
            np = a[1]
        elif a[2] == 1:
            np = o.pos + a[1]
        elif a[2] == 2:
            np = len(o.inode.data) + a[1]
        else:
            raise OSErr(E.EINVAL)
        if np < 0:
            raise OSErr(E.EINVAL)
        o.pos = np
        return np, b""

    def statbuf(self, n):
        size = len(n.data) if n.kind in "fl" else 0
        dev, ino = self.ids.get(n.ino, (1, n.ino))
        return struct.pack("=10q", dev, ino, n.mode, max(n.nlink, 0), n.uid,
                           n.gid, size, n.mtime, n.mtime, n.mtime)

    def op_FSTAT(self, p, a, pay):
        return 0, self.statbuf(self.fd(p, a[0]).inode)

    def op_STAT(self, p, a, pay):
        return 0, self.statbuf(self.walk(p, cstr(pay)))

    def op_LSTAT(self, p, a, pay):
        return 0, self.statbuf(self.walk(p, cstr(pay), follow=False))

    def op_FSTATAT(self, p, a, pay):
        path = cstr(pay)
        start = None if path.startswith("/") else self.dirfd(p, a[0])
        return 0, self.statbuf(self.walk(p, path, start,
                                         follow=not a[1] & 0x100))

    def op_ACCESS(self, p, a, pay):
        path = cstr(pay)
        start = None if path.startswith("/") else self.dirfd(p, a[1])
        n = self.walk(p, path, start)
        self.perm(p, n, a[0] & 7)
        return 0, b""

    def op_MKSTEMP(self, p, a, pay):
        t = cstr(pay)
        suf = t[len(t) - a[1]:] if a[1] else ""
        stem = t[:len(t) - a[1]] if a[1] else t
        if not stem.endswith("XXXXXX"):
            raise OSErr(E.EINVAL)
        for _ in range(100):
            # Few distinct letters: collisions with leftovers do happen.
            name = stem[:-6] + "".join(
                NAMECHARS[self.rand() % len(NAMECHARS)] for _ in range(6)) + suf
            try:
                fd = self.do_open(p, name, O_RDWR | O_CREAT | O_EXCL | a[0],
                                  0o600)
            except OSErr as e:
                if e.errno == E.EEXIST:
                    continue
                raise
            return fd, name.encode("utf-8", "surrogateescape")
        raise OSErr(E.EEXIST)

    def rename(self, p, a, sa, b, sb):
        da, na = self.walk(p, a, sa, parent=True)
        n = da.entries.get(na)
        if n is None:
            raise OSErr(E.ENOENT)
        db, nb = self.walk(p, b, sb, parent=True)
        self.perm(p, da, 3)
        self.perm(p, db, 3)
        old = db.entries.get(nb)
        if old is n:
            return
        if old is not None:
            if old.kind == "d" and n.kind != "d":
                raise OSErr(E.EISDIR)
            if old.kind != "d" and n.kind == "d":
                raise OSErr(E.ENOTDIR)
            if old.kind == "d" and old.entries:
                raise OSErr(E.ENOTEMPTY)
        # One journal record pair, applied at once: rename(2) is atomic.
        j = len(self.journal)
        self.ns_set(db, nb, n)
        self.ns_del(da, na)
        rec = self.journal[j:]
        del self.journal[j:]
        self.journal.append(_Multi(rec))

    def op_RENAME(self, p, a, pay):
        x, y = cstrs(pay, 2)
        self.rename(p, x, None, y, None)
        return 0, b""

    def op_RENAMEAT(self, p, a, pay):
        x, y = cstrs(pay, 2)
        self.rename(p, x, None if x.startswith("/") else self.dirfd(p, a[0]),
                    y, None if y.startswith("/") else self.dirfd(p, a[1]))
        return 0, b""

    def op_LINK(self, p, a, pay):
        x, y = cstrs(pay, 2)
        n = self.walk(p, x, follow=False)
        d, name = self.walk(p, y, parent=True)
        if name in d.entries:
            raise OSErr(E.EEXIST)
        self.perm(p, d, 3)
        self.ns_set(d, name, n)
        return 0, b""

    def op_SYMLINK(self, p, a, pay):
        x, y = cstrs(pay, 2)
        d, name = self.walk(p, y, parent=True)
        if name in d.entries:
            raise OSErr(E.EEXIST)
        self.perm(p, d, 3)
        n = self.new_inode("l", S.S_IFLNK | 0o777, p.uid, p.gid)
        n.data = bytearray(x.encode())
        self.created.append(n)
        self.ns_set(d, name, n)
        return 0, b""

    def op_READLINK(self, p, a, pay):
        n = self.walk(p, cstr(pay), follow=False)
        if n.kind != "l":
            raise OSErr(E.EINVAL)
        out = bytes(n.data[:a[0]])
        return len(out), out

    def unlink(self, p, path, start=None):
        d, name = self.walk(p, path, start, parent=True)
        n = d.entries.get(name)
        if n is None:
            raise OSErr(E.ENOENT)
        if n.kind == "d":
            raise OSErr(E.EISDIR)
        self.perm(p, d, 3)
        self.ns_del(d, name)

    def op_UNLINK(self, p, a, pay):
        self.unlink(p, cstr(pay))
        return 0, b""

    def op_UNLINKAT(self, p, a, pay):
        path = cstr(pay)
        if a[1] & 0x200:
            return self.op_RMDIR(p, a, pay)
        self.unlink(p, path, None if path.startswith("/") else
                    self.dirfd(p, a[0]))
        return 0, b""

    def op_RMDIR(self, p, a, pay):
        d, name = self.walk(p, cstr(pay), parent=True)
        n = d.entries.get(name)
        if n is None:
            raise OSErr(E.ENOENT)
        if n.kind != "d":
            raise OSErr(E.ENOTDIR)
        if n.entries:
            raise OSErr(E.ENOTEMPTY)
        self.perm(p, d, 3)
        self.ns_del(d, name)
        return 0, b""

    def op_MKDIR(self, p, a, pay):
        d, name = self.walk(p, cstr(pay), parent=True)
        if name in d.entries:
            raise OSErr(E.EEXIST)
        self.perm(p, d, 3)
        n = self.new_inode("d", S.S_IFDIR | (a[0] & ~p.umask & 0o7777), p.uid,
                           p.gid)
        n.parent = d
        self.created.append(n)
        self.ns_set(d, name, n)
        return 0, b""

    def chmod(self, p, n, mode):
        if p.uid not in (0, n.uid):
            raise OSErr(E.EPERM)
        n.mode = S.S_IFMT(n.mode) | (mode & 0o7777)
        n.maxmode |= n.mode
        self.gen += 1

    def op_FCHMOD(self, p, a, pay):
        self.chmod(p, self.fd(p, a[0]).inode, a[1])
        return 0, b""

    def op_CHMOD(self, p, a, pay):
        self.chmod(p, self.walk(p, cstr(pay)), a[0])
        return 0, b""

    def chown(self, p, n, u, g):
        if p.uid != 0:
            if u not in (-1, n.uid) or p.uid != n.uid:
                raise OSErr(E.EPERM)
            if g not in (-1, n.gid, p.gid):
                raise OSErr(E.EPERM)
        if u != -1:
            n.uid = u
        if g != -1:
            n.gid = g
        if n.kind == "f":
            n.mode &= ~S.S_ISUID
            if n.mode & S.S_IXGRP:
                n.mode &= ~S.S_ISGID
        self.gen += 1

    def op_FCHOWN(self, p, a, pay):
        self.chown(p, self.fd(p, a[0]).inode, a[1], a[2])
        return 0, b""

    def op_CHOWN(self, p, a, pay):
        self.chown(p, self.walk(p, cstr(pay)), a[0], a[1])
        return 0, b""

    def op_LCHOWN(self, p, a, pay):
        self.chown(p, self.walk(p, cstr(pay), follow=False), a[0], a[1])
        return 0, b""

    def op_UMASK(self, p, a, pay):
        old, p.umask = p.umask, a[0] & 0o777
        return old, b""

    def op_FSYNC(self, p, a, pay):
        n = self.fd(p, a[0]).inode
        if n.kind in "ps":
            raise OSErr(E.EINVAL)
        if n.wberr:
            err = n.wberr
            self.writeback_failed(n)
            raise OSErr(err)
        if n.kind == "f":
            n.durable = bytes(n.data)
        self.commit()
        return 0, b""

    op_FDATASYNC = op_FSYNC

    def op_SYNC(self, p, a, pay):
        for n in self.files().values():
            if n.kind == "f" and not n.wberr:
                n.durable = bytes(n.data)
        self.commit()
        return 0, b""

    def truncate(self, n, size):
        if n.kind != "f":
            raise OSErr(E.EINVAL)
        if len(n.data) > size:
            del n.data[size:]
        else:
            n.data += bytes(size - len(n.data))
        n.writes += 1
        self.gen += 1

    def op_FTRUNCATE(self, p, a, pay):
        o = self.fd(p, a[0])
        if not o.flags & 3:
            raise OSErr(E.EINVAL)
        self.truncate(o.inode, a[1])
        return 0, b""

    def op_TRUNCATE(self, p, a, pay):
        n = self.walk(p, cstr(pay))
        self.perm(p, n, 2)
        self.truncate(n, a[0])
        return 0, b""

    def op_PIPE(self, p, a, pay):
        n = Inode(0, "p", S.S_IFIFO | 0o600)
        n.cap = self.pipecap
        cl = bool(a[0] & O_CLOEXEC)
        r = self.install(p, self.new_ofd(n, 0, "r"), cl)
        try:
            w = self.install(p, self.new_ofd(n, 1, "w"), cl)
        except OSErr:
            self.drop(p.fds.pop(r)[0])
            raise
        return 0, struct.pack("=ii", r, w)

    def op_DUP(self, p, a, pay):
        return self.install(p, self.fd(p, a[0])), b""

    def op_DUP2(self, p, a, pay):
        o = self.fd(p, a[0])
        if a[0] == a[1]:
            return a[1], b""
        e = p.fds.pop(a[1], None)
        if e is not None:
            self.drop(e[0])
        self.install(p, o, at=a[1])
        return a[1], b""

    def op_FCNTL(self, p, a, pay):
        o = self.fd(p, a[0])
        cmd = a[1]
        if cmd in (0, 1030):
            at = a[2]
            while at in p.fds:
                at += 1
            return self.install(p, o, cmd == 1030, at), b""
        if cmd == 1:
            return int(p.fds[a[0]][1]), b""
        if cmd == 2:
            p.fds[a[0]] = (o, bool(a[2] & 1))
            return 0, b""
        if cmd == 3:
            return o.flags, b""
        return 0, b""

    def op_FORK(self, p, a, pay):
        c = Proc(len(self.procs), self.nextpid, p.name + "+")
        self.nextpid += 1
        c.ppid = p.pid
        c.cwd = p.cwd
        c.umask = p.umask
        c.uid, c.gid = p.uid, p.gid
        c.sigpipe_ign = p.sigpipe_ign
        for k, (o, cl) in p.fds.items():
            o.refs += 1
            c.fds[k] = (o, cl)
        c.peakfd = len(c.fds)
        self.procs.append(c)
        self.bypid[c.pid] = c
        mine, theirs = socket.socketpair()
        c.sock = mine
        return c.pid, theirs     # special-cased by the caller

    def op_EXEC(self, p, a, pay):
        parts = pay.split(b"\0")[:-1]
        path = parts[0].decode("utf-8", "surrogateescape")
        argv = [x.decode("utf-8", "surrogateescape") for x in parts[1:]]
        prog = self.sc.get("programs", {}).get(path.rsplit("/", 1)[-1])
        if prog is None or prog.get("mode") == "absent":
            raise OSErr(E.ENOENT)
        import programs
        for k in [k for k, e in p.fds.items() if e[1]]:
            self.drop(p.fds.pop(k)[0])
        p.exec_name = path
        p.next_gen = programs.start(prog, path, argv)
        return 0, b""

    def op_WAITPID(self, p, a, pay):
        want = a[0]
        kids = [c for c in self.procs if c.ppid == p.pid and not c.reaped and
                (want <= 0 or c.pid == want)]
        if not kids:
            raise OSErr(E.ECHILD)
        for c in kids:
            if c.dead:
                c.reaped = True
                return c.pid, struct.pack("=i", c.status)
        if a[1] & 1:
            return 0, b""
        raise Block()

    def op_SPAWNED(self, p, a, pay):
        c = self.bypid[a[0]]
        if c.exec_name:
            return 0, b""
        if not c.dead:
            raise Block()
        if c.spawn_error:
            c.reaped = True
        return c.spawn_error, b""

    def op_EXIT(self, p, a, pay):
        p.spawn_error = a[1]
        self.finish(p, (a[0] & 0xff) << 8)
        return 0, b""

    def op_GETPID(self, p, a, pay):
        return p.pid, b""

    def op_GETPPID(self, p, a, pay):
        return p.ppid, b""

    def op_GETUID(self, p, a, pay):
        return p.uid, b""

    def op_GETGID(self, p, a, pay):
        return p.gid, b""

    def op_KILL(self, p, a, pay):
        c = self.bypid.get(a[0])
        if c is None or c.reaped:
            raise OSErr(E.ESRCH)
        if a[1] and not c.dead:
            self.kill_proc(c, a[1])
            if c is p:
                raise Died()
        return 0, b""

    def op_REALPATH(self, p, a, pay):
        path = cstr(pay)
        n = self.walk(p, path)
        # Rebuild the canonical path from the resolved parent.
        if n.kind == "d":
            return 0, self.path_of(n).encode("utf-8", "surrogateescape")
        d, name = self._parent_of(p, path)
        out = (self.path_of(d).rstrip("/") or "") + "/" + name
        return 0, out.encode("utf-8", "surrogateescape")

    def _parent_of(self, p, path, depth=0):
        d, name = self.walk(p, path, parent=True)
        n = d.entries[name]
        if n.kind == "l" and depth < 8:
            t = n.data.decode()
            if not t.startswith("/"):
                t = self.path_of(d) + "/" + t
            return self._parent_of(p, t, depth + 1)
        return d, name

    def op_GETCWD(self, p, a, pay):
        return 0, self.path_of(p.cwd).encode("utf-8", "surrogateescape")

    def op_CHDIR(self, p, a, pay):
        n = self.walk(p, cstr(pay))
        if n.kind != "d":
            raise OSErr(E.ENOTDIR)
        p.cwd = n
        return 0, b""

    def op_FCHDIR(self, p, a, pay):
        p.cwd = self.dirfd(p, a[0])
        return 0, b""

    def op_TIME(self, p, a, pay):
        return self.epoch + self.step, b""

    def op_RANDOM(self, p, a, pay):
        return self.rand(), b""

    def op_SIGPIPE(self, p, a, pay):
        p.sigpipe_ign = bool(a[0])
        return 0, b""

    def op_UTIMENS(self, p, a, pay):
        path = cstr(pay)
        if not path:
            n = self.fd(p, a[0]).inode
        else:
            n = self.walk(p, path, None if path.startswith("/") else
                          self.dirfd(p, a[0]))
        if p.uid not in (0, n.uid):
            self.perm(p, n, 2)
        n.touched += 1
        n.mtime = self.step
        self.gen += 1
        return 0, b""

    def op_READDIR(self, p, a, pay):
        n = self.fd(p, a[0]).inode
        if n.kind != "d":
            raise OSErr(E.ENOTDIR)
        out = ["d.", "d.."]
        out += [(c.kind if c.kind in "dl" else "f") + x
                for x, c in n.entries.items()]
        return 0, b"".join(x.encode("utf-8", "surrogateescape") + b"\0"
                           for x in out)[:1 << 16]

    def op_ISATTY(self, p, a, pay):
        n = self.fd(p, a[0]).inode
        if n.tty is None:
            raise OSErr(E.ENOTTY)
        return n.tty if a[1] else 1, b""

    def op_PLEDGE(self, p, a, pay):
        return 0, b""

    def op_ASSERT(self, p, a, pay):
        p.crash = "assertion: " + cstr(pay)
        self.finish(p, SIGABRT)
        return 0, b""

    # -- process end ---------------------------------------------------------------
    def finish(self, p, status):
        p.dead = True
        p.status = status
        for e in p.fds.values():
            self.drop(e[0])
            n = e[0].inode
            if n.wberr and n.kind == "f" and e[0].refs == 0:
                self.writeback_failed(n)
        p.endfds = dict(p.fds)
        p.fds = {}

    def kill_proc(self, p, sig):
        if p.dead:
            return
        self.finish(p, sig)
        p.killed = True
        if p.sock is not None:
            p.sock.close()
            p.sock = None
        p.gen = None
        p.pending = None


class _Multi(tuple):
    pass


class _Rng:
    """splitmix64"""

    def __init__(self, seed):
        self.s = seed & 0xffffffffffffffff

    def next(self):
        self.s = (self.s + 0x9e3779b97f4a7c15) & 0xffffffffffffffff
        z = self.s
        z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & 0xffffffffffffffff
        z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & 0xffffffffffffffff
        return z ^ (z >> 31)

    def below(self, n):
        return self.next() % n if n > 0 else 0


def cstr(b):
    return b[:-1].decode("utf-8", "surrogateescape")


def cstrs(b, n):
    return [x.decode("utf-8", "surrogateescape") for x in b.split(b"\0")[:n]]

"""Executes one scenario: real knfmt processes on the simulated machine.

A scenario is a JSON object and decides everything:

  files     {path: {data, mode, uid, gid} | {link: target} | {dir: mode}}
  cwd       working directory
  procs     [{argv, uid, gid, umask, stdin, stdout, alloc, variant} |
             {stub, ...}]
              stdin:  {data} a file, {pipe, data, chunks} or null (closed)
              stdout: {} a sink, {limit}: reader leaves after that many bytes,
                      {file: path}: redirected, {pipe: index of a stub},
                      {fail: [n, errno]}: fails after n bytes, or {closed: 1}
              stderr: {}, limit, fail or closed alike
  faults    [{p, op, n, kind, ...}]: the n-th call of op by process p, with
              on: and all that follow
              errno: fails, no effect      short: transfers fewer bytes
              kill: dies before it         killafter: dies after it
              power: machine loses power   lose: write-back fails later
  knobs     rchunk, wchunk, disk_free, fdlimit, pipecap, rng, sigpipe_ign,
            mounts, pid (first process id), epoch (clock)
  programs  {name: {...}}: the programs that can be executed
  sched     explicit scheduling choices, then sched_seed, then run to block
  maxsteps
"""
import array
import errno as E
import json
import mmap
import os
import select
import signal
import socket
import struct
import subprocess
import sys
import zlib

import kernel as K
import programs

CFG = struct.Struct("=QIIIIQIIIII16II")
ENV = {"PATH": "/usr/bin:/bin", "HOME": "/root", "LANG": "C", "TERM": "dumb"}
MAXSTEPS = 40000
PATHOPS = ("OPEN", "OPENAT", "STAT", "LSTAT", "FSTATAT", "ACCESS", "REALPATH")
WALL = 300
NSITES = 16384
VAIN = 3000     # the same call with the same bad result, over and over


class Zygote:
    def __init__(self, exe):
        self.exe = exe
        a, b = socket.socketpair()
        self.ctl = a
        self.mem = os.memfd_create("sim")
        os.ftruncate(self.mem, 40 + 4 * NSITES)
        self.map = mmap.mmap(self.mem, 40 + 4 * NSITES)
        self.err = os.memfd_create("simerr")
        fl = os.open("/proc/self/fd/%d" % self.err, os.O_WRONLY | os.O_APPEND)
        env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "TMPDIR": "/tmp",
               "ASAN_OPTIONS": "detect_leaks=0:exitcode=77:symbolize=0:"
               "detect_stack_use_after_return=0:quarantine_size_mb=16:"
               "allocator_may_return_null=1:handle_abort=0",
               "UBSAN_OPTIONS": "exitcode=77:print_stacktrace=0:symbolize=0"}
        self.p = subprocess.Popen(
            [exe, "norandom", str(b.fileno()), str(self.mem)],
            pass_fds=[b.fileno(), self.mem], stdin=subprocess.DEVNULL,
            stdout=subprocess.DEVNULL, stderr=fl, env=env)
        os.close(fl)
        b.close()

    def spawn(self, argv, cfg, env):
        a, b = socket.socketpair()
        pay = cfg + b"".join(
            os.fsencode(x) + b"\0"
            for x in list(argv) + ["%s=%s" % e for e in sorted(env.items())])
        hdr = struct.pack("=IIii", ord("S"), len(pay), 0, len(argv))
        self.ctl.sendmsg([hdr], [(socket.SOL_SOCKET, socket.SCM_RIGHTS,
                                  array.array("i", [b.fileno()]))])
        self.ctl.sendall(pay)
        b.close()
        pid, _ = struct.unpack("=ii", self._recv(8))
        return a, pid

    def _recv(self, n):
        buf = b""
        while len(buf) < n:
            x = self.ctl.recv(n - len(buf))
            if not x:
                raise K.SimError("fork server is gone: " + self.errors())
            buf += x
        return buf

    def wait(self, pid):
        self.ctl.sendall(struct.pack("=IIii", ord("W"), 0, pid, 0))
        return struct.unpack("=ii", self._recv(8))

    def nalloc(self):
        return struct.unpack("=QQQQQ", self.map[:40])

    def sites(self, n):
        """Who made each of the first allocations."""
        n = min(n, NSITES)
        return struct.unpack("=%dI" % n, self.map[40:40 + 4 * n])

    def errors(self, clear=True):
        n = os.fstat(self.err).st_size
        out = os.pread(self.err, min(n, 65536), 0)
        if clear:
            os.ftruncate(self.err, 0)
        return out.decode(errors="replace")

    def close(self):
        try:
            self.ctl.close()
            self.p.kill()
            self.p.wait()
            self.map.close()
            os.close(self.mem)
            os.close(self.err)
        except OSError:
            pass


_zygotes = {}
EXES = {}       # variant -> executable


def zygote(variant):
    z = _zygotes.get(variant)
    if z is None or z.p.poll() is not None:
        z = _zygotes[variant] = Zygote(EXES[variant])
    return z


def drop_zygotes():
    for z in _zygotes.values():
        z.close()
    _zygotes.clear()


def pack_cfg(c, nenv):
    oom = list(c.get("oom", ()))[:16]
    return CFG.pack(c.get("seed", 1), c.get("fill", 0), c.get("topdown", 0),
                    c.get("move", 0), c.get("gaps", 0), c.get("limit", 0),
                    len(oom), c.get("sticky", 0), c.get("cpu", 0),
                    c.get("poison", 0), c.get("reuse", 1),
                    *(oom + [0] * (16 - len(oom)) + [nenv]))


def enc(s):
    return s.encode("latin-1")


class Result:
    """What happened, for the oracles."""
    __slots__ = ("k", "procs", "steps", "crc", "choices", "deadlock",
                 "livelock", "fired", "trace", "violation", "nalloc", "out",
                 "err", "oomfired", "ncands", "oplog", "peak", "work", "sites")

    def status(self, i=0):
        return self.k.procs[i].status

    def code(self, i=0):
        """Exit status, or None when killed by a signal."""
        s = self.k.procs[i].status
        if s is None or s & 0x7f:
            return None
        return s >> 8

    def content(self, path):
        n = self.k.lookup(path)
        if n is None or n.kind != "f":
            return None
        return bytes(n.data)


class Sim:
    def __init__(self, sc, invariant=None, keep_trace=False):
        self.sc = sc
        self.k = K.Kernel(sc)
        self.inv = invariant
        self.keep = keep_trace
        self.choices = []
        self.oplog = []
        self.violation = None

    # -- set up ------------------------------------------------------------------
    def setup(self):
        sc, k = self.sc, self.k
        k.mkdirs("/tmp", 0o41777)
        k.mkdirs("/dev")
        for path, f in sc.get("files", {}).items():
            if "link" in f:
                k.put_symlink(path, f["link"])
            elif "dir" in f:
                d = k.mkdirs(path)
                d.mode = 0o40000 | f["dir"]
                d.uid, d.gid = f.get("uid", 0), f.get("gid", 0)
            else:
                k.put(path, enc(f["data"]), f.get("mode", 0o644),
                      f.get("uid", 0), f.get("gid", 0))
        for path, f in sc.get("hardlinks", {}).items():
            n = k.lookup(f)
            if n is None:
                continue
            dn, _, b = path.rpartition("/")
            k.mkdirs(dn).entries[b] = n
            n.nlink += 1
        k.mkdirs(sc.get("cwd", "/w"))
        if sc.get("knobs", {}).get("mounts"):
            k.mount(sc["knobs"]["mounts"])
        k.snapshot_base()
        self.out, self.err = [], []
        pipes = {}
        specs = sc["procs"]
        for i, ps in enumerate(specs):
            if "stub" in ps and ps.get("reads") is not None:
                n = K.Inode(0, "p", 0o10600)
                n.cap = k.pipecap
                pipes[ps["reads"]] = (n, i)
        for i, ps in enumerate(specs):
            p = K.Proc(i, k.nextpid, "p%d" % i)
            k.nextpid += 1
            p.main = True
            p.ppid = 1
            p.cwd = k.mkdirs(ps.get("cwd", sc.get("cwd", "/w")))
            p.uid, p.gid = ps.get("uid", 0), ps.get("gid", 0)
            p.umask = ps.get("umask", 0o022)
            p.sigpipe_ign = k.sigpipe_ign
            k.procs.append(p)
            k.bypid[p.pid] = p
            self.stdio(p, i, ps, pipes)
        for i, ps in enumerate(specs):
            p = k.procs[i]
            if "stub" in ps:
                p.stub = True
                p.gen = programs.start(ps, ps["stub"], [])
                self.advance(p, None)
            else:
                self.launch(p, ps)

    def stdio(self, p, i, ps, pipes):
        k = self.k
        si = ps.get("stdin", {"data": ""})
        if "reads" in ps and ps["reads"] is not None:
            n, _ = pipes[ps["reads"]]
            k.install(p, k.new_ofd(n, 0, "r"), at=0)
        elif si is not None:
            if "pipe" in si:
                # The writer end belongs to nobody: the data is all there and
                # end of file follows; chunking is the rchunk knob's job.
                n = K.Inode(0, "p", 0o10600)
                n.data = bytearray(enc(si["data"]))
                k.install(p, k.new_ofd(n, 0, "r"), at=0)
            else:
                n = k.new_inode("f", 0o100600)
                n.data = bytearray(enc(si["data"]))
                n.durable = bytes(n.data)
                k.install(p, k.new_ofd(n, 0), at=0)
        so = ps.get("stdout", {})
        if "closed" in so:
            self.out.append(None)
        elif i in pipes:
            n, _ = pipes[i]
            k.install(p, k.new_ofd(n, 1, "w"), at=1)
            self.out.append(n)
        elif "file" in so:
            n = k.lookup(so["file"])
            k.install(p, k.new_ofd(n, 1), at=1)
            self.out.append(n)
        else:
            n = K.Inode(0, "s", 0o20600)
            n.tag = "stdout"
            n.limit = so.get("limit")
            n.fail = so.get("fail")
            n.tty = ps.get("tty")
            k.install(p, k.new_ofd(n, 1), at=1)
            self.out.append(n)
        n = K.Inode(0, "s", 0o20600)
        n.tag = "stderr"
        n.tty = ps.get("tty")
        se = ps.get("stderr", {})
        n.limit = se.get("limit")
        n.fail = se.get("fail")
        if not ps.get("stderr_closed") and "closed" not in se:
            k.install(p, k.new_ofd(n, 1), at=2)
        self.err.append(n)

    def launch(self, p, ps):
        v = ps.get("variant", self.sc.get("variant", "plain"))
        z = zygote(v)
        env = dict(ENV, **ps.get("env", self.sc.get("env", {})))
        env = {k: x for k, x in env.items() if x is not None}
        cfg = pack_cfg(ps.get("alloc", self.sc.get("alloc", {})), len(env))
        p.sock, p.rpid = z.spawn(ps["argv"], cfg, env)
        p.zyg = z

    # -- plumbing ------------------------------------------------------------------
    def recv(self, p):
        """Park p: wait for its next call. False if the image is gone."""
        hdr = K.REQ.size
        while True:
            if len(p.buf) >= hdr:
                op, plen, a0, a1, a2, a3 = K.REQ.unpack_from(p.buf)
                if len(p.buf) >= hdr + plen:
                    pay = p.buf[hdr:hdr + plen]
                    p.buf = p.buf[hdr + plen:]
                    p.pending = (K.OPS[op], (a0, a1, a2, a3), pay)
                    return True
            r, _, _ = select.select([p.sock], [], [], WALL)
            if not r:
                p.crash = "hang: no system call within the time limit"
                if p.rpid:
                    os.kill(p.rpid, signal.SIGKILL)
                self.k.finish(p, K.SIGKILL)
                p.sock.close()
                p.sock = None
                return False
            x = p.sock.recv(1 << 18)
            if not x:
                self.image_died(p)
                return False
            p.buf += x

    def image_died(self, p):
        """The real image vanished without exiting: a crash."""
        st = K.SIGABRT
        if p.rpid:
            _, st = p.zyg.wait(p.rpid)
            p.rpid = None
        sig = st & 0x7f
        if sig == signal.SIGXCPU or sig == signal.SIGKILL:
            p.crash = "hang: processor time limit exceeded"
        elif sig:
            p.crash = "signal %d" % sig
        else:
            p.crash = "abnormal exit %d" % (st >> 8)
        if p.main:
            rep = p.zyg.errors()
            for l in rep.splitlines():
                if "ERROR: " in l or "runtime error" in l:
                    # Addresses are stable, but not worth depending on.
                    p.crash += ": " + l.split("ERROR: ")[-1].split(" on ")[0][:120]
                    break
        p.sock.close()
        p.sock = None
        self.k.finish(p, sig or K.SIGABRT)

    def reply(self, p, ret, err, pay=b"", fd=None):
        hdr = K.REP.pack(ret, err, len(pay))
        try:
            if fd is not None:
                p.sock.sendmsg([hdr + pay], [(socket.SOL_SOCKET,
                                              socket.SCM_RIGHTS,
                                              array.array("i", [fd]))])
            else:
                p.sock.sendall(hdr + pay)
        except (BrokenPipeError, ConnectionResetError):
            pass            # noticed at the next recv
        p.pending = None

    def advance(self, p, val):
        try:
            if val is None:
                op, a, pay = next(p.gen)
            else:
                op, a, pay = p.gen.send(val)
        except StopIteration as s:
            p.pending = ("EXIT", (s.value or 0, 0, 0, 0), b"")
            return
        p.pending = (op, tuple(a) + (0,) * (4 - len(a)), pay)

    # -- one call -----------------------------------------------------------------
    def execute(self, p):
        """Perform p's pending call. False if it blocks."""
        k = self.k
        op, a, pay = p.pending
        fault = getattr(p, "cur_fault", None)
        if not getattr(p, "counted", False):
            p.counted = True
            p.nops += 1
            c = p.opc.get(op, 0) + 1
            p.opc[op] = c
            fault = k.faults.get((p.idx, op, c)) or \
                k.faults.get((p.idx, None, p.nops)) or \
                k.lasting(p.idx, op, c)
            p.cur_fault = fault
            self.oplog.append((p.idx, op, c, pay[:-1] if op in PATHOPS else
                               a[0]))
        kind = fault["kind"] if fault else None
        if kind in ("kill", "errno"):
            self.fire(p, fault, op)
            if kind == "kill":
                k.kill_proc(p, fault.get("sig", K.SIGKILL))
                self.note(p, op, a, pay, -2, 0)
                return True
            ret, err, out = -1, fault["errno"], b""
            if op == "CLOSE":
                # The descriptor is gone even when close(2) complains.
                e = p.fds.pop(a[0], None)
                if e is not None:
                    k.drop(e[0])
            self.finish_call(p, op, a, pay, ret, err, out)
            return True
        ret, err, out = 0, 0, b""
        if op == "KILL" and a[0] == "self":
            k.kill_proc(p, a[1])
            self.note(p, op, (0, a[1], 0, 0), pay, 0, 0)
            return True
        h = getattr(k, "op_" + op)
        try:
            if op in ("READ", "WRITE") and kind == "short":
                self.fire(p, fault, op)
                ret, out = h(p, a, pay, limit=fault["limit"])
            elif op == "WRITE" and kind == "lose":
                self.fire(p, fault, op)
                ret, out = h(p, a, pay, lose=fault["errno"])
            elif op == "WRITE" and kind == "killafter" and "limit" in fault:
                ret, out = h(p, a, pay, limit=fault["limit"])
            else:
                ret, out = h(p, a, pay)
        except K.Block:
            return False
        except K.OSErr as e:
            ret, err, out = -1, e.errno, b""
        except K.Died:
            self.note(p, op, a, pay, -2, 0)
            return True
        if kind == "killafter":
            self.fire(p, fault, op)
            if op == "FORK" and ret > 0:
                c = k.bypid[ret]
                out.close()
                c.sock.close()
                c.sock = None
                k.finish(c, K.SIGKILL)
            k.kill_proc(p, fault.get("sig", K.SIGKILL))
            self.note(p, op, a, pay, ret, err)
            return True
        if kind == "power":
            self.fire(p, fault, op)
            k.power_loss(fault.get("seed", 1))
            self.note(p, op, a, pay, -3, 0)
            return True
        self.finish_call(p, op, a, pay, ret, err, out)
        return True

    def finish_call(self, p, op, a, pay, ret, err, out):
        p.counted = False
        p.cur_fault = None
        self.note(p, op, a, pay, ret, err, out)
        vain = (op, a, err) if ret == -1 or (op == "READ" and ret == 0) \
            else None
        if vain is None or vain != p.same:
            p.same, p.nsame = vain, 0
        else:
            p.nsame += 1
        if p.stub:
            p.pending = None
            if not p.dead:
                self.advance(p, (ret, err, out))
            return
        if op == "FORK" and ret > 0:
            self.reply(p, ret, 0, b"", out.fileno())
            out.close()
            return
        if op in ("EXIT", "ASSERT"):
            self.reply(p, 0, 0)
            p.sock.close()
            p.sock = None
            return
        if op == "EXEC" and ret == 0:
            self.reply(p, 0, 0)
            p.sock.close()
            p.sock = None
            p.gen = p.next_gen
            p.stub = True
            self.advance(p, None)
            return
        self.reply(p, ret, err, out if isinstance(out, bytes) else b"")

    def fire(self, p, fault, op):
        self.k.fired.append((fault["kind"], op, fault.get("errno", 0)))
        p.faulted += 1

    def note(self, p, op, a, pay, ret, err, out=b""):
        k = self.k
        big = op in ("WRITE", "PWRITE")
        s = "%d %s %s %s %d %d" % (
            p.idx, op, a[:3], "%d:%08x" % (len(pay), zlib.crc32(pay)) if big
            else pay[:200], ret, err)
        if isinstance(out, bytes) and len(out) > 64:
            s += " %08x" % zlib.crc32(out)
        k.crc = zlib.crc32(s.encode("utf-8", "surrogateescape"), k.crc)
        if self.keep:
            k.trace.append(s)

    # -- the loop ----------------------------------------------------------------
    def run(self):
        k = self.k
        sc = self.sc
        sched = list(sc.get("sched", ()))
        rng = K._Rng(sc["sched_seed"]) if "sched_seed" in sc else None
        maxsteps = sc.get("maxsteps", MAXSTEPS)
        res = Result()
        res.deadlock = res.livelock = False
        pos = 0
        ncands = 0
        try:
            self.setup()
            last = None
            lastgen = k.gen
            blocked = set()
            if self.inv:
                self.violation = self.inv(k, self)
            while not self.violation:
                live = []
                for p in list(k.procs):
                    if p.dead:
                        continue
                    if p.pending is None and not self.recv(p):
                        blocked.clear()
                        continue
                    live.append(p)
                if not live:
                    break
                cands = [p for p in live if p.idx not in blocked]
                if not cands:
                    res.deadlock = True
                    break
                if last in cands and cands[0] is not last:
                    cands.remove(last)
                    cands.insert(0, last)
                if len(cands) > 1:
                    ncands += 1
                    if pos < len(sched):
                        c = sched[pos] % len(cands)
                    elif rng is not None:
                        # Mostly keep going, switch now and then.
                        c = rng.below(len(cands)) if rng.below(3) == 0 else 0
                    else:
                        c = 0
                    pos += 1
                    self.choices.append(c)
                    p = cands[c]
                else:
                    p = cands[0]
                k.step += 1
                if not self.execute(p):
                    blocked.add(p.idx)
                    last = None
                    continue
                blocked.clear()
                last = p if not p.dead else None
                if k.gen != lastgen:
                    lastgen = k.gen
                    if self.inv:
                        self.violation = self.inv(k, self)
                if k.step >= maxsteps or p.nsame >= VAIN:
                    res.livelock = True
                    break
        finally:
            self.cleanup()
        res.k = k
        res.procs = k.procs
        res.steps = k.step
        res.choices = self.choices
        res.oplog = self.oplog
        res.fired = k.fired
        res.trace = k.trace
        res.violation = self.violation
        res.ncands = ncands
        z = _zygotes.get(sc.get("variant", "plain"))
        res.nalloc, res.oomfired, _, res.peak, res.work = \
            z.nalloc() if z else (0,) * 5
        res.sites = z.sites(res.nalloc) if z and sc.get("sites") else ()
        if res.oomfired:
            k.fired.append(("oom", "ALLOC", res.oomfired))
        res.out = [bytes(n.data) if n is not None else b"" for n in self.out]
        res.err = [bytes(n.data) for n in self.err]
        fin = repr([(p.status, p.crash) for p in k.procs]) + \
            repr(sorted((x, zlib.crc32(bytes(n.data)), n.mode, n.uid, n.gid)
                        for x, n in k.files().items() if n.kind != "d")) + \
            repr(res.out) + repr(res.err)
        res.crc = zlib.crc32(fin.encode(), k.crc)
        return res

    def cleanup(self):
        for p in self.k.procs:
            if p.sock is not None:
                p.sock.close()
                p.sock = None
            if p.rpid:
                if not p.dead:
                    # Deadlocked or cut off: parked in recv, will see EOF; a
                    # spinning image would not.
                    try:
                        os.kill(p.rpid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                p.zyg.wait(p.rpid)
                p.rpid = None


def run(sc, invariant=None, keep_trace=False):
    return Sim(sc, invariant, keep_trace).run()


if __name__ == "__main__":
    import build
    EXES.update(build.build(["plain"]))
    sc = {"files": {"/w/a.c": {"data": "int\nmain(void)\n{\n  return 0;}\n"}},
          "cwd": "/w", "procs": [{"argv": ["knfmt"] + sys.argv[1:]}],
          "programs": {"diff": {}}}
    r = run(sc, keep_trace=True)
    print("\n".join(r.trace))
    print(r.status(), r.out, r.err, hex(r.crc), r.nalloc)
    print({k: bytes(v.data) for k, v in r.k.files().items() if v.kind == "f"})

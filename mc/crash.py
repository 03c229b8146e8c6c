"""Crash and I/O fault simulation below the process (see native/shim.c).

``start()`` re-executes the check with the shim preloaded.  ``in_child()``
forks, arms the shim in the child and runs a function there.  ``FileSystem``
replays a log of calls and enumerates the directory contents that may be found
after a power loss.
"""
import ctypes
import json
import os
import shutil
import struct
import subprocess
import sys
import tempfile
from . import core

LOG, KILL, TORN, FAIL, SHORT, FAILALL = range(6)
_lib = None


def start():
    """Make sure the shim is loaded; may replace the current process."""
    global _lib
    if _lib is not None:
        return
    so = os.environ.get('TORON_MC_SHIM')
    if not so:
        where = tempfile.mkdtemp(prefix='toronmc-shim-', dir=os.path.dirname(core.SCRATCH))
        so = os.path.join(where, 'shim.so')
        subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-w', '-o', so,
                        os.path.join(core.VERIF, 'mc', 'native', 'shim.c'), '-ldl'], check=True)
        shutil.rmtree(core.SCRATCH, ignore_errors=True)
        env = dict(os.environ, TORON_MC_SHIM=so, LD_PRELOAD=so)
        sys.stdout.flush()
        os.execve(sys.executable, sys.orig_argv, env)
    os.environ.pop('LD_PRELOAD', None)
    _lib = ctypes.CDLL(so)
    _lib.shim_disarm.restype = ctypes.c_long
    shutil.rmtree(os.path.dirname(so), ignore_errors=True)


def arm(directory, mode, n, err, logfd):
    _lib.shim_arm(os.path.realpath(directory).encode(), mode, ctypes.c_long(n), err, logfd)


def disarm():
    return _lib.shim_disarm()


def mark(kind):
    _lib.shim_mark(kind)


def in_child(func, directory, mode, n=0, err=0, log=None):
    """Run func() in a child with the shim armed on *directory*.

    func returns JSON-able data (called with the shim still armed; it must
    disarm before it inspects anything).  Returns (exit status, data)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.close(r)
            fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600) if log else -1
            arm(directory, mode, n, err, fd)
            data = func()
            disarm()
            os.write(w, json.dumps(data).encode())
            code = 0
        except BaseException as e:  # noqa
            try:
                disarm()
                import traceback
                os.write(w, json.dumps({'crash': traceback.format_exc(limit=-6)}).encode())
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    data = json.loads(b''.join(chunks)) if chunks else None
    return os.waitstatus_to_exitcode(status), data


_REC = struct.Struct('=IIqQII')


def read_log(path):
    """[(type, path, path2, offset, data)]"""
    with open(path, 'rb') as f:
        raw = f.read()
    out, pos = [], 0
    while pos < len(raw):
        t, result, off, size, n1, n2 = _REC.unpack_from(raw, pos)
        pos += _REC.size
        t = chr(t)
        p1 = raw[pos:pos + n1].decode(); pos += n1
        p2 = raw[pos:pos + n2].decode(); pos += n2
        data = b''
        if t == 'W':
            data = raw[pos:pos + size]; pos += size
        out.append((t, p1, p2, off, data))
    return out


class Inode:
    __slots__ = ('synced', 'pending')

    def __init__(self, data=b''):
        self.synced = data          # contents that survive a power loss
        self.pending = []           # writes since the last sync, in order


def apply(data, ops):
    buf = bytearray(data)
    for op in ops:
        if op[0] == 'T':
            size = op[1]
            if len(buf) > size:
                del buf[size:]
            else:
                buf.extend(b'\0' * (size - len(buf)))
        else:
            _, off, chunk = op
            if len(buf) < off:
                buf.extend(b'\0' * (off - len(buf)))
            buf[off:off + len(chunk)] = chunk
    return bytes(buf)


class FileSystem:
    """Contents that may survive: a name refers to an inode; names changed
    since the last sync of the directory, and data written since the last sync
    of the file, may each be lost."""

    def __init__(self, directory, files):
        self.dir = os.path.realpath(directory)
        self.inodes = [Inode(data) for data in files.values()]
        self.durable = {name: ino for name, ino in zip(files, self.inodes)}  # after loss
        self.names = dict(self.durable)
        self.changes = []           # (kind, name, inode) since the last directory sync

    def name(self, path):
        return os.path.relpath(path, self.dir)

    def step(self, event):
        t, p1, p2, off, data = event
        if t == 'M':
            return
        name = self.name(p1)
        if t == 'C':
            if name in self.names:
                if off:
                    self.names[name].pending.append(('T', 0))
                return
            ino = Inode()
            self.names[name] = ino
            self.changes.append(('add', name, ino))
        elif t == 'W':
            if name in self.names:
                self.names[name].pending.append(('W', off, data))
        elif t == 'T':
            if name in self.names:
                self.names[name].pending.append(('T', off))
        elif t == 'S':
            if name == '.':
                self.durable = dict(self.names)
                self.changes = []
            elif name in self.names:
                ino = self.names[name]
                ino.synced = apply(ino.synced, ino.pending)
                ino.pending = []
        elif t == 'N':
            new = self.name(p2)
            ino = self.names.pop(name, None)
            if ino is not None:
                self.names[new] = ino
                self.changes.append(('rename', (name, new), ino))
        elif t == 'L':
            ino = self.names.get(name)
            if ino is not None:
                self.names[self.name(p2)] = ino
                self.changes.append(('add', self.name(p2), ino))
        elif t == 'U':
            self.names.pop(name, None)
            self.changes.append(('del', name, None))

    def directories(self):
        """Directory contents after losing any suffix of the unsynced changes."""
        for keep in range(len(self.changes) + 1):
            names = dict(self.durable)
            for kind, name, ino in self.changes[:keep]:
                if kind == 'add':
                    names[name] = ino
                elif kind == 'rename':
                    names.pop(name[0], None)
                    names[name[1]] = ino
                else:
                    names.pop(name, None)
            yield names

    def contents(self, ino):
        """What the file may contain: all or none of the unsynced writes, each
        single one lost, each single one kept, each one torn, and each prefix."""
        p = ino.pending
        yield apply(ino.synced, p)
        if not p:
            return
        yield ino.synced
        for i in range(len(p)):
            yield apply(ino.synced, p[:i])
            yield apply(ino.synced, p[:i] + p[i + 1:])
            yield apply(ino.synced, [p[i]])
            if p[i][0] == 'W' and len(p[i][2]) > 1:
                half = ('W', p[i][1], p[i][2][:len(p[i][2]) // 2])
                yield apply(ino.synced, p[:i] + [half])

    def combinations(self, names, depth):
        """Joint contents of all files of one directory: every file with all
        or none of its unsynced data; with depth 1 also every variation of one
        file while the others have all or none."""
        import itertools
        items = sorted(names.items())
        ends = []
        for name, ino in items:
            full = apply(ino.synced, ino.pending)
            ends.append([full] if not ino.pending else [full, ino.synced])
        for combo in itertools.product(*ends):
            yield dict(zip(names_of(items), combo))
        if not depth:
            return
        for i, (name, ino) in enumerate(items):
            if not ino.pending:
                continue
            rest = [e for j, e in enumerate(ends) if j != i]
            others = [n for j, n in enumerate(names_of(items)) if j != i]
            for data in self.contents(ino):
                for combo in itertools.product(*rest):
                    yield dict(zip(others, combo), **{name: data})


def names_of(items):
    return [name for name, _ in items]

# In-memory file system behind every file access of the simulated process.
#
# All paths under /sim (and relative paths: the simulated current directory
# is always under /sim) live here; other absolute paths may only be read.
# Every "system call" goes through SimFS.sys(), where faults are injected, the
# process may be killed and simulated threads may be preempted.  User-space
# buffers belong to the process: a kill loses what was not yet written.
import os
import errno
import stat as statmod
import posixpath
import core

ROOT = '/sim'
FDBASE = 1000
BUFSIZE = 512          # small, so that the buffer boundaries are exercised

MESSAGES = {
    errno.ENOENT: 'No such file or directory', errno.EEXIST: 'File exists',
    errno.ENOSPC: 'No space left on device', errno.EIO: 'Input/output error',
    errno.EMFILE: 'Too many open files', errno.EACCES: 'Permission denied',
    errno.EROFS: 'Read-only file system', errno.EISDIR: 'Is a directory',
    errno.ENOTDIR: 'Not a directory', errno.ENOTEMPTY: 'Directory not empty',
    errno.EBADF: 'Bad file descriptor', errno.EINTR: 'Interrupted system call',
}
ERRNOS = dict(ENOSPC=errno.ENOSPC, EIO=errno.EIO, EMFILE=errno.EMFILE,
              EACCES=errno.EACCES)
# the faults a system call can meet
POSSIBLE = dict(
    open=('EIO', 'EMFILE', 'EACCES'), creat=('EIO', 'EMFILE', 'EACCES', 'ENOSPC'),
    read=('EIO',), write=('ENOSPC', 'EIO'), close=('EIO',), stat=('EIO', 'EACCES'),
    mkdir=('ENOSPC', 'EIO', 'EACCES'), listdir=('EIO', 'EACCES'),
    unlink=('EIO',), rename=('EIO',), truncate=('EIO',))


def mkerr(cls, code, path=None):
    msg = MESSAGES.get(code, os.strerror(code))
    if path is None:
        return cls(code, msg)
    return cls(code, msg, path)


class Node(object):
    def __init__(self, isdir, mtime=0):
        self.isdir = isdir
        self.data = bytearray()
        self.mtime = mtime
        self.nlink = 1


class SimFS(object):
    def __init__(self, sim):
        self.sim = sim
        self.nodes = {ROOT: Node(True), ROOT + '/tmp': Node(True),
                      ROOT + '/job': Node(True)}
        self.cwd = ROOT + '/job'
        self.epoch = 0
        self.frozen = False
        self.fds = {}
        self.nextfd = FDBASE
        self.armed = None        # [countdown, fault name, sticky]
        self.kill_at = None
        self.nsys = 0
        self.opened = 0
        self.faults = 0
        self.tmp_space = 10000   # number of distinct temp names
        self.writes = {}         # path -> number of writing opens/writes
        self.enabled = True
        self.live = []           # file objects of the process
        self.short_reads = 0     # percentage of reads that give less than asked for
        self.trace_sys = True

    # ---- control by the simulator
    def arm(self, countdown, kind=None, sticky=False, only=None):
        """The countdown-th next faultable system call fails"""
        self.armed = [countdown, kind, sticky, only]

    def disarm(self):
        self.armed = None

    def arm_kill(self, countdown):
        self.kill_at = self.nsys + 1 + countdown

    def kill(self):
        """The process disappears; only what it wrote survives"""
        self.frozen = True
        self.sim.log('KILL')
        self.sim.fault('kill')

    def new_process(self):
        """A fresh process over the surviving files"""
        self.epoch += 1
        self.frozen = False
        self.kill_at = None
        self.armed = None
        self.fds = {}
        self.live = []
        for name in ('zips', 'temps'):
            self.sim.state.pop(name, None)
        self.cwd = ROOT + '/job'

    def sys(self, call, path='', err=IOError):
        sim = self.sim
        if self.frozen:
            raise core.SimKilled()
        self.nsys += 1
        if not self.enabled:
            return
        if self.trace_sys:
            sim.log('sys', call, path)
        t = sim.threads
        if t is not None:
            t.syscall()
        if self.kill_at is not None and self.nsys >= self.kill_at:
            self.kill()
            raise core.SimKilled()
        a = self.armed
        if a is not None and call in POSSIBLE:
            countdown, kind, sticky, only = a
            if only is not None and call not in only:
                return
            if kind is not None and kind not in POSSIBLE[call]:
                return
            if countdown > 0:
                a[0] -= 1
                return
            if kind is None:
                opts = POSSIBLE[call]
                kind = opts[sim.draw(len(opts))]
                a[1] = kind if sticky else None
            if not sticky:
                self.armed = None
            self.faults += 1
            sim.fault('%s@%s' % (kind, call))
            sim.log('FAULT', kind, call, path)
            raise mkerr(err, ERRNOS[kind], path)

    # ---- paths
    def norm(self, path):
        if isinstance(path, unicode):
            path = path.encode('utf8')
        if not isinstance(path, str):
            raise TypeError('coercing to Unicode: need string or buffer, %s found'
                            % type(path).__name__)
        if not path.startswith('/'):
            path = self.cwd + '/' + path
        return posixpath.normpath(path)

    def mine(self, path):
        if not isinstance(path, basestring):
            return True
        if path.startswith('/'):
            p = posixpath.normpath(path)
            return p == ROOT or p.startswith(ROOT + '/')
        return True

    def parent(self, p, err):
        d = posixpath.dirname(p)
        node = self.nodes.get(d)
        if node is None:
            raise mkerr(err, errno.ENOENT, p)
        if not node.isdir:
            raise mkerr(err, errno.ENOTDIR, p)
        return node

    def lookup(self, path, err):
        p = self.norm(path)
        # a path through a file is not a directory
        node = self.nodes.get(p)
        if node is None:
            d = posixpath.dirname(p)
            n = self.nodes.get(d)
            if n is not None and not n.isdir:
                raise mkerr(err, errno.ENOTDIR, path)
            raise mkerr(err, errno.ENOENT, path)
        return p, node

    # ---- direct access for the workloads (no faults, no system calls)
    def put(self, path, data):
        p = self.norm(path)
        d = posixpath.dirname(p)
        self.mkdirs(d)
        n = self.nodes.get(p)
        if n is None:
            n = self.nodes[p] = Node(False)
        n.data = bytearray(data)

    def mkdirs(self, path):
        p = self.norm(path)
        todo = []
        while p not in self.nodes:
            todo.append(p)
            p = posixpath.dirname(p)
        for q in reversed(todo):
            self.nodes[q] = Node(True)

    def get(self, path):
        n = self.nodes.get(self.norm(path))
        return None if n is None or n.isdir else str(n.data)

    def files(self, under=ROOT):
        under = under.rstrip('/') + '/'
        return dict((p, str(n.data)) for p, n in self.nodes.items()
                    if not n.isdir and p.startswith(under))

    def tree(self, under=ROOT):
        """All names below a directory, with contents (None for directories)"""
        under = under.rstrip('/') + '/'
        return dict((p, None if n.isdir else str(n.data))
                    for p, n in self.nodes.items() if p.startswith(under))

    def open_handles(self):
        return len(self.fds)

    # ---- os-level calls
    def os_open(self, path, flags=0, mode=0777, err=OSError):
        if not self.mine(path):
            if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                raise mkerr(err, errno.EROFS, path)
            raise core.HarnessError('os.open of a real file: %s' % path)
        p = self.norm(path)
        self.sys('creat' if flags & os.O_CREAT else 'open', path, err)
        node = self.nodes.get(p)
        if node is None:
            self.parent(p, err)
            if not flags & os.O_CREAT:
                raise mkerr(err, errno.ENOENT, path)
            node = self.nodes[p] = Node(False, self.sim.now)
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise mkerr(err, errno.EEXIST, path)
            writing = flags & (os.O_WRONLY | os.O_RDWR)
            if node.isdir and writing:
                raise mkerr(err, errno.EISDIR, path)
            if flags & os.O_TRUNC and writing:
                node.data = bytearray()
        fd = self.nextfd
        self.nextfd += 1
        acc = flags & 3
        self.fds[fd] = dict(node=node, path=p, pos=0, r=acc != os.O_WRONLY,
                            w=acc != 0, a=bool(flags & os.O_APPEND))
        self.opened += 1
        return fd

    def ent(self, fd, err):
        try:
            return self.fds[fd]
        except (KeyError, TypeError):
            raise mkerr(err, errno.EBADF)

    def os_read(self, fd, n, err=OSError):
        e = self.ent(fd, err)
        self.sys('read', e['path'], err)
        if e['node'].isdir:
            raise mkerr(err, errno.EISDIR)
        if self.short_reads and n > 1 and self.sim.chance(self.short_reads):
            n = 1 + self.sim.draw(n - 1)
            self.sim.fault('short-read')
        data = str(e['node'].data[e['pos']:e['pos'] + n])
        e['pos'] += len(data)
        return data

    def os_write(self, fd, data, err=OSError):
        e = self.ent(fd, err)
        if not e['w']:
            raise mkerr(err, errno.EBADF)
        node = e['node']
        data = str(data)
        try:
            self.sys('write', e['path'], err)
        except EnvironmentError as x:
            # a failing write may have written a part
            k = self.sim.draw(len(data) + 1) if data else 0
            self._put(e, data[:k])
            raise x
        except core.SimKilled:
            # killed in the middle of a write
            k = self.sim.draw(len(data) + 1) if data else 0
            self._put(e, data[:k])
            raise
        self._put(e, data)
        return len(data)

    def _put(self, e, data):
        if not data:
            return
        node = e['node']
        pos = len(node.data) if e['a'] else e['pos']
        if pos > len(node.data):
            node.data.extend('\0' * (pos - len(node.data)))
        node.data[pos:pos + len(data)] = data
        e['pos'] = pos + len(data)
        node.mtime = self.sim.now

    def os_close(self, fd, err=OSError):
        e = self.ent(fd, err)
        if self.frozen:
            raise core.SimKilled()
        del self.fds[fd]
        self.sys('close', e['path'], err)

    def os_lseek(self, fd, pos, how, err=OSError):
        e = self.ent(fd, err)
        if how == 1:
            pos += e['pos']
        elif how == 2:
            pos += len(e['node'].data)
        if pos < 0:
            raise err(errno.EINVAL, 'Invalid argument')
        e['pos'] = pos
        return pos

    def os_ftruncate(self, fd, size, err=OSError):
        e = self.ent(fd, err)
        self.sys('truncate', e['path'], err)
        d = e['node'].data
        if size <= len(d):
            del d[size:]
        else:
            d.extend('\0' * (size - len(d)))

    def os_stat(self, path, err=OSError):
        self.sys('stat', path, err)
        p, node = self.lookup(path, err)
        return self._statres(node)

    def _statres(self, node):
        mode = (statmod.S_IFDIR | 0755) if node.isdir else (statmod.S_IFREG | 0644)
        m = int(node.mtime)
        return os.stat_result((mode, 0, 0, 1, 0, 0, len(node.data), m, m, m))

    def os_mkdir(self, path, mode=0777):
        if not self.mine(path):
            raise mkerr(OSError, errno.EROFS, path)
        self.sys('mkdir', path, OSError)
        p = self.norm(path)
        if p in self.nodes:
            raise mkerr(OSError, errno.EEXIST, path)
        self.parent(p, OSError)
        self.nodes[p] = Node(True, self.sim.now)

    def os_rmdir(self, path):
        self.sys('unlink', path, OSError)
        p, node = self.lookup(path, OSError)
        if not node.isdir:
            raise mkerr(OSError, errno.ENOTDIR, path)
        if any(q.startswith(p + '/') for q in self.nodes):
            raise mkerr(OSError, errno.ENOTEMPTY, path)
        del self.nodes[p]

    def os_listdir(self, path):
        self.sys('listdir', path, OSError)
        p, node = self.lookup(path, OSError)
        if not node.isdir:
            raise mkerr(OSError, errno.ENOTDIR, path)
        names = sorted(q[len(p) + 1:] for q in self.nodes
                       if q.startswith(p + '/') and '/' not in q[len(p) + 1:])
        # the order of a directory listing is arbitrary
        if len(names) > 1:
            k = self.sim.draw(len(names))
            names = names[k:] + names[:k]
            if self.sim.draw(2):
                names.reverse()
        return names

    def os_unlink(self, path):
        if not self.mine(path):
            raise mkerr(OSError, errno.EROFS, path)
        self.sys('unlink', path, OSError)
        p, node = self.lookup(path, OSError)
        if node.isdir:
            raise mkerr(OSError, errno.EISDIR, path)
        del self.nodes[p]

    def os_rename(self, a, b):
        if not self.mine(a) or not self.mine(b):
            raise mkerr(OSError, errno.EROFS, b)
        self.sys('rename', a, OSError)
        p, node = self.lookup(a, OSError)
        q = self.norm(b)
        self.parent(q, OSError)
        if node.isdir:
            for r in list(self.nodes):
                if r.startswith(p + '/'):
                    self.nodes[q + r[len(p):]] = self.nodes.pop(r)
        del self.nodes[p]
        self.nodes[q] = node

    def os_chdir(self, path):
        p, node = self.lookup(path, OSError)
        if not node.isdir:
            raise mkerr(OSError, errno.ENOTDIR, path)
        self.cwd = p

    # ---- temp names: few distinct ones, so that careless callers collide
    def tmpname(self, dir, prefix, suffix):
        k = self.sim.draw(self.tmp_space)
        return posixpath.join(dir, '%s%05d%s' % (prefix, k, suffix))


class SimFile(object):
    """The Python 2 file object, over SimFS descriptors"""
    def __init__(self, fs, name, mode, fd, bufsize=-1):
        self._fs = fs
        self._sim = fs.sim
        self._epoch = fs.epoch
        fs.live.append(self)
        self._hash = fs.sim.next_hash()
        self.name = name
        self.mode = mode
        self.closed = False
        self.softspace = 0
        self.encoding = None
        self.errors = None
        self.newlines = None
        self._fd = fd
        self._r = 'r' in mode or 'U' in mode or '+' in mode
        self._w = 'w' in mode or 'a' in mode or '+' in mode
        self._wbuf = []
        self._wlen = 0
        self._rbuf = ''
        self._univ = 'U' in mode
        self._bufsize = 0 if bufsize == 0 else BUFSIZE

    def __hash__(self):
        return self._hash

    def __repr__(self):
        return '<%s file %r, mode %r>' % (
            'closed' if self.closed else 'open', self.name, self.mode)

    def _check(self):
        if self._epoch != self._fs.epoch or self._fs.frozen:
            raise core.SimKilled()
        if self.closed:
            raise ValueError('I/O operation on closed file')

    def _flush(self):
        if self._wbuf:
            data = ''.join(self._wbuf)
            self._wbuf = []
            self._wlen = 0
            self._fs.os_write(self._fd, data, IOError)

    def _unread(self):
        if self._rbuf:
            self._fs.os_lseek(self._fd, -len(self._rbuf), 1, IOError)
            self._rbuf = ''

    def _fill(self):
        self._flush()
        data = self._fs.os_read(self._fd, BUFSIZE, IOError)
        if self._univ and data:
            if data.endswith('\r'):
                data += self._fs.os_read(self._fd, 1, IOError)
            data = data.replace('\r\n', '\n').replace('\r', '\n')
        self._rbuf += data
        return bool(data)

    def _readable(self):
        self._check()
        if not self._r:
            raise IOError('File not open for reading')

    def read(self, size=-1):
        self._readable()
        if size is None or size < 0:
            while self._fill():
                pass
            data, self._rbuf = self._rbuf, ''
        else:
            while len(self._rbuf) < size and self._fill():
                pass
            data, self._rbuf = self._rbuf[:size], self._rbuf[size:]
        return data

    def readline(self, size=-1):
        self._readable()
        while True:
            i = self._rbuf.find('\n')
            if i >= 0:
                n = i + 1
                break
            if size is not None and 0 <= size <= len(self._rbuf):
                n = size
                break
            if not self._fill():
                n = len(self._rbuf)
                break
        if size is not None and size >= 0:
            n = min(n, size)
        data, self._rbuf = self._rbuf[:n], self._rbuf[n:]
        return data

    def next(self):
        line = self.readline()
        if not line:
            raise StopIteration
        return line

    def __iter__(self):
        self._check()
        return self

    def xreadlines(self):
        return self

    def readlines(self, hint=-1):
        return list(self)

    def readinto(self, buf):
        data = self.read(len(buf))
        buf[:len(data)] = data
        return len(data)

    def write(self, data):
        self._check()
        if not self._w:
            raise IOError('File not open for writing')
        if isinstance(data, unicode):
            data = data.encode('ascii')
        elif not isinstance(data, str):
            data = str(buffer(data))
        self._unread()
        if data:
            self._wbuf.append(data)
            self._wlen += len(data)
            if self._wlen >= self._bufsize:
                self._flush()

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def flush(self):
        self._check()
        self._flush()

    def seek(self, pos, how=0):
        self._check()
        self._flush()
        self._unread()
        self._fs.os_lseek(self._fd, pos, how, IOError)

    def tell(self):
        self._check()
        self._flush()
        e = self._fs.ent(self._fd, IOError)
        if e['a'] and self._w and not self._r:
            return e['pos'] or len(e['node'].data)
        return e['pos'] - len(self._rbuf)

    def truncate(self, size=None):
        self._check()
        if size is None:
            size = self.tell()
        self._flush()
        self._unread()
        self._fs.os_ftruncate(self._fd, size, IOError)

    def fileno(self):
        self._check()
        return self._fd

    def isatty(self):
        return False

    def close(self):
        if self.closed:
            return
        if self._epoch != self._fs.epoch or self._fs.frozen:
            raise core.SimKilled()
        self.closed = True
        try:
            self._flush()
        except EnvironmentError:
            self._fs.fds.pop(self._fd, None)
            raise
        self._fs.os_close(self._fd, IOError)

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, etype, exc, tb):
        self.close()

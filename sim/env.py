# The seams: everything nondeterministic that the code under test can reach
# is replaced here, once per interpreter, by a version that asks the current
# simulation.  Outside of a run (no current simulation) the real thing is used.
import ast
import sys
import os
import imp
import types
import errno
import random
import logging
import tempfile
import time
import datetime as _dt
import __builtin__
import StringIO
import core
import simfs

REPO = core.REPO
HERE = os.path.dirname(os.path.abspath(__file__))
STUBS = os.path.join(HERE, 'stubs')
PKG = 'openquake.commonlib'

real_open = __builtin__.open
real = {}          # saved os functions
CODE = {}          # file name -> code object
BASE_ENVIRON = {'HOME': '/sim', 'LANG': 'C'}
ENVIRON = os.environ


def cur():
    s = core.CURRENT[0]
    return s if s is not None and s.fs is not None else None


# ------------------------------------------------------------- file access

class _OpenMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, (simfs.SimFile, real['file']))


def flags_of(mode, name):
    m = mode.replace('b', '').replace('U', '').replace('t', '')
    upd = '+' in m
    m = m.replace('+', '')
    if m in ('', 'r'):
        return os.O_RDWR if upd else os.O_RDONLY
    if m == 'w':
        return (os.O_RDWR if upd else os.O_WRONLY) | os.O_CREAT | os.O_TRUNC
    if m == 'a':
        return (os.O_RDWR if upd else os.O_WRONLY) | os.O_CREAT | os.O_APPEND
    raise ValueError("mode string must begin with one of 'r', 'w', 'a' or 'U', "
                     "not '%s'" % mode)


def sim_open(name, mode='r', bufsize=-1):
    sim = cur()
    if sim is None:
        return real_open(name, mode, bufsize)
    fs = sim.fs
    if not fs.mine(name):
        if set(mode) & set('wa+'):
            raise simfs.mkerr(IOError, errno.EROFS, name)
        return real_open(name, mode, bufsize)
    flags = flags_of(mode, name)
    p = fs.norm(name)
    node = fs.nodes.get(p)
    if node is not None and node.isdir:
        raise simfs.mkerr(IOError, errno.EISDIR, name)
    fd = fs.os_open(name, flags, 0666, IOError)
    return simfs.SimFile(fs, name, mode, fd, bufsize)


class SimOpen(object):
    """Stands for the builtins open and file"""
    __metaclass__ = _OpenMeta

    def __new__(cls, name, mode='r', bufsize=-1):
        return sim_open(name, mode, bufsize)


def route(name, method):
    """os.<name>(path, ...) -> SimFS.<method>"""
    orig = getattr(os, name, None)
    real[name] = orig

    def call(path, *args, **kw):
        sim = cur()
        if sim is None or not sim.fs.mine(path):
            if sim is not None and name in ('chmod', 'utime', 'rmdir', 'remove',
                                            'unlink', 'mkdir', 'chdir'):
                raise simfs.mkerr(OSError, errno.EROFS, path)
            return orig(path, *args, **kw)
        if name in ('open',):
            return sim.fs.os_open(path, *args)
        return getattr(sim.fs, method)(path, *args)
    call.__name__ = name
    setattr(os, name, call)


def fdroute(name, func):
    orig = getattr(os, name, None)
    real[name] = orig

    def call(fd, *args, **kw):
        sim = cur()
        if sim is None or not (isinstance(fd, (int, long)) and fd >= simfs.FDBASE):
            if orig is None:
                raise simfs.mkerr(OSError, errno.EBADF)
            return orig(fd, *args, **kw)
        return func(sim.fs, fd, *args, **kw)
    call.__name__ = name
    setattr(os, name, call)


def _fdopen(fs, fd, mode='r', bufsize=-1):
    fs.ent(fd, OSError)
    return simfs.SimFile(fs, '<fdopen>', mode, fd, bufsize)


class TempWrapper(object):
    """tempfile._TemporaryFileWrapper"""
    def __init__(self, file, name, delete=True):
        core.current().state.setdefault('temps', []).append(self)
        self.file = file
        self.name = name
        self.close_called = False
        self.delete = delete
        self._hash = core.current().next_hash()

    def __hash__(self):
        return self._hash

    def __getattr__(self, name):
        return getattr(self.__dict__['file'], name)

    def __enter__(self):
        self.file.__enter__()
        return self

    def __iter__(self):
        return iter(self.file)

    def close(self):
        if not self.close_called:
            self.close_called = True
            try:
                self.file.close()
            finally:
                if self.delete:
                    os.unlink(self.name)

    def unlink(self, path):
        os.unlink(path)

    def __exit__(self, etype, exc, tb):
        self.close()


def _tmpdir():
    return simfs.ROOT + '/tmp'


def sim_mkstemp(suffix='', prefix='tmp', dir=None, text=False):
    sim = cur()
    if sim is None:
        return real['mkstemp'](suffix, prefix, dir, text)
    if dir is None:
        dir = _tmpdir()
    for _ in xrange(100000):
        name = sim.fs.tmpname(dir, prefix, suffix)
        try:
            fd = sim.fs.os_open(name, os.O_RDWR | os.O_CREAT | os.O_EXCL, 0600)
        except OSError as e:
            if e.errno == errno.EEXIST:
                continue
            raise
        return fd, sim.fs.norm(name)
    raise simfs.mkerr(IOError, errno.EEXIST, dir)


def sim_mkdtemp(suffix='', prefix='tmp', dir=None):
    sim = cur()
    if sim is None:
        return real['mkdtemp'](suffix, prefix, dir)
    if dir is None:
        dir = _tmpdir()
    for _ in xrange(100000):
        name = sim.fs.tmpname(dir, prefix, suffix)
        try:
            os.mkdir(name, 0700)
        except OSError as e:
            if e.errno == errno.EEXIST:
                continue
            raise
        return name
    raise simfs.mkerr(IOError, errno.EEXIST, dir)


def sim_mktemp(suffix='', prefix='tmp', dir=None):
    sim = cur()
    if sim is None:
        return real['mktemp'](suffix, prefix, dir)
    if dir is None:
        dir = _tmpdir()
    while True:
        name = sim.fs.tmpname(dir, prefix, suffix)
        if sim.fs.norm(name) not in sim.fs.nodes:
            return name


def sim_named(mode='w+b', bufsize=-1, suffix='', prefix='tmp', dir=None, delete=True):
    sim = cur()
    if sim is None:
        return real['NamedTemporaryFile'](mode, bufsize, suffix, prefix, dir, delete)
    fd, name = sim_mkstemp(suffix, prefix, dir)
    # fdopen: the mode only limits what the object may do
    flags_of(mode, name)
    return TempWrapper(simfs.SimFile(sim.fs, '<fdopen>', mode, fd, bufsize), name, delete)


class SimNames(object):
    """tempfile._RandomNameSequence over the few names of the simulation"""
    def __iter__(self):
        return self

    def next(self):
        return '%05d' % cur().draw(cur().fs.tmp_space)


def sim_tempfile(mode='w+b', bufsize=-1, suffix='', prefix='tmp', dir=None):
    sim = cur()
    if sim is None:
        return real['TemporaryFile'](mode, bufsize, suffix, prefix, dir)
    fd, name = sim_mkstemp(suffix, prefix, dir)
    os.unlink(name)
    return simfs.SimFile(sim.fs, '<fdopen>', mode, fd, bufsize)


# ------------------------------------------------------------- clock

real_timemod = time
real_time = time.time


def sim_time():
    sim = core.CURRENT[0]
    if sim is None:
        return real_time()
    hook = sim.state.get('clock')
    return hook() if hook else sim.now


def sim_sleep(dt):
    sim = core.CURRENT[0]
    if sim is None:
        return
    sim.advance(dt)
    t = sim.threads
    if t is not None:
        t.switch()


def sim_id(obj):
    sim = core.CURRENT[0]
    if sim is not None:
        model = sim.state.get('id_model')
        if model is not None:
            return model(obj)
    return real['id'](obj)


# ------------------------------------------------------------- logging

class Capture(logging.Handler):
    def emit(self, record):
        sim = core.CURRENT[0]
        if sim is None:
            return
        lst = sim.state.get('logged')
        if lst is not None:
            try:
                msg = record.getMessage()
            except Exception as e:
                msg = 'BAD LOG CALL %r %r %s' % (record.msg, record.args, e)
            lst.append((record.levelname, msg))
            hook = sim.state.get('log_hook')
            if hook is not None:
                hook(record.levelname, msg)

    def handleError(self, record):
        raise


# ------------------------------------------------------------- install

class Template(object):
    """
    The source of the classes made by collections.namedtuple, compiled once:
    collections executes whatever format returns
    """
    def __init__(self, template):
        self.template = template
        self.codes = {}

    def format(self, **kw):
        src = self.template.format(**kw)
        code = self.codes.get(src)
        if code is None:
            code = self.codes[src] = compile(src, '<namedtuple>', 'exec')
        return code


class SimLock(object):
    """threading.Lock and RLock of the code under test, known to the scheduler"""
    reentrant = False

    def __init__(self):
        self.owner = None
        self.depth = 0

    def _me(self):
        sim = core.CURRENT[0]
        t = sim.threads if sim is not None else None
        return t.active if t is not None else 'main'

    def acquire(self, blocking=1):
        me = self._me()
        waited = 0
        while self.owner is not None and not (self.reentrant and self.owner is me):
            if not blocking:
                return False
            sim = core.CURRENT[0]
            waited += 1
            if sim is None or sim.threads is None or waited > 2000:
                if sim is not None:
                    sim.fail('deadlock', 'a lock is never released')
                raise core.HarnessError('deadlock')
            sim.threads.switch()
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        self.depth -= 1
        if self.depth <= 0:
            self.owner = None
            self.depth = 0

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, etype, exc, tb):
        self.release()


class SimRLock(SimLock):
    reentrant = True


def install():
    import collections
    import threading
    threading.Lock = SimLock
    threading.RLock = SimRLock
    collections._class_template = Template(collections._class_template)
    real['file'] = __builtin__.file
    __builtin__.open = SimOpen
    __builtin__.file = SimOpen
    import io
    real['io.open'] = io.open

    def io_open(name, mode='r', *args, **kw):
        sim = cur()
        if sim is None or not sim.fs.mine(name) or isinstance(name, int):
            return real['io.open'](name, mode, *args, **kw)
        f = sim_open(name, mode)
        if 'b' in mode:
            return f
        import codecs
        enc = kw.get('encoding') or (args[1] if len(args) > 1 else None) or 'utf8'
        info = codecs.lookup(enc)
        return codecs.StreamReaderWriter(f, info.streamreader, info.streamwriter)
    io.open = io_open
    for name, method in dict(
            stat='os_stat', lstat='os_stat', mkdir='os_mkdir', rmdir='os_rmdir',
            listdir='os_listdir', unlink='os_unlink', remove='os_unlink',
            chdir='os_chdir', open='os_open').items():
        route(name, method)
    real['rename'] = os.rename
    os.rename = lambda a, b: cur().fs.os_rename(a, b) if cur() else real['rename'](a, b)
    os.chmod = lambda path, mode: None
    os.utime = lambda path, times: None

    def access(path, mode):
        try:
            os.stat(path)
        except OSError:
            return False
        return True
    os.access = access
    fdroute('close', lambda fs, fd: fs.os_close(fd))
    fdroute('read', lambda fs, fd, n: fs.os_read(fd, n))
    fdroute('write', lambda fs, fd, data: fs.os_write(fd, data))
    fdroute('lseek', lambda fs, fd, pos, how: fs.os_lseek(fd, pos, how))
    fdroute('ftruncate', lambda fs, fd, n: fs.os_ftruncate(fd, n))
    fdroute('fsync', lambda fs, fd: fs.ent(fd, OSError) and None)
    fdroute('fstat', lambda fs, fd: fs._statres(fs.ent(fd, OSError)['node']))
    fdroute('fdopen', _fdopen)
    real['getcwd'] = os.getcwd
    os.getcwd = lambda: cur().fs.cwd if cur() else real['getcwd']()
    os.getcwdu = lambda: unicode(os.getcwd())
    real['getpid'] = os.getpid

    def sim_getpid():
        sim = core.CURRENT[0]
        if sim is None:
            return real['getpid']()
        pid = getattr(sim.threads.active, 'pid', None) if sim.threads is not None else None
        return pid or sim.state.get('pid', 4242)
    os.getpid = sim_getpid
    real['_exit'] = os._exit
    for name, func in (('mkstemp', sim_mkstemp), ('mkdtemp', sim_mkdtemp),
                       ('mktemp', sim_mktemp), ('NamedTemporaryFile', sim_named),
                       ('TemporaryFile', sim_tempfile)):
        real[name] = getattr(tempfile, name)
        setattr(tempfile, name, func)
    tempfile._RandomNameSequence = SimNames
    tempfile.tempdir = _tmpdir()
    tempfile.gettempdir = lambda: _tmpdir()
    real['id'] = __builtin__.id
    __builtin__.id = sim_id
    # in Jython time is a Java class: replace it by a module
    fake = types.ModuleType('time')
    for name in ('accept2dyear', 'altzone', 'asctime', 'daylight', 'mktime', 'strftime',
                 'strptime', 'struct_time', 'timezone', 'tzname'):
        try:
            setattr(fake, name, getattr(real_timemod, name))
        except AttributeError:
            pass
    fake.time = fake.clock = sim_time
    fake.sleep = sim_sleep
    fake.gmtime = lambda t=None: real_timemod.gmtime(sim_time() if t is None else t)
    fake.localtime = lambda t=None: real_timemod.gmtime(sim_time() if t is None else t)
    fake.ctime = lambda t=None: real_timemod.asctime(real_timemod.gmtime(
        sim_time() if t is None else t))
    sys.modules['time'] = fake
    for mod in list(sys.modules.values()):
        if getattr(mod, 'time', None) is real_timemod:
            mod.time = fake
    global time
    time = fake
    os.urandom = lambda n: ''.join(chr(cur().draw(256)) for _ in range(n)) \
        if cur() else '\0' * n
    # datetime.now/utcnow/fromtimestamp(now) of Jython use the Java clock
    import zipfile
    # finalisers run when the collector feels like it: never, in here
    if hasattr(zipfile.ZipFile, '__del__'):
        del zipfile.ZipFile.__del__
    for cls in (zipfile.ZipFile, zipfile.ZipExtFile, zipfile.ZipInfo):
        cls.__hash__ = sim_hash
    zinit = zipfile.ZipFile.__init__.im_func

    def init(self, file, mode='r', *args, **kw):
        sim = cur()
        if sim is None:
            return zinit(self, file, mode, *args, **kw)
        sim.state.setdefault('zips', []).append(self)
        if mode == 'a' and isinstance(file, basestring) and \
                sim.fs.norm(file) in sim.fs.nodes:
            # zipfile itself takes an existing archive that it fails to open
            # for a missing one and truncates it: no faults inside of it
            armed, sim.fs.armed = sim.fs.armed, None
            try:
                return zinit(self, file, mode, *args, **kw)
            finally:
                sim.fs.armed = armed
        return zinit(self, file, mode, *args, **kw)
    zipfile.ZipFile.__init__ = init
    root = logging.getLogger()
    root.handlers[:] = [Capture()]
    root.setLevel(logging.DEBUG)
    sys.path.insert(0, STUBS)
    pkg = types.ModuleType('openquake')
    pkg.__path__ = [STUBS + '/openquake', REPO + '/openquake']
    sys.modules['openquake'] = pkg
    sys.meta_path.insert(0, Finder())


def sim_hash(self):
    d = self.__dict__
    h = d.get('_sim_hash')
    if h is None:
        sim = core.CURRENT[0]
        h = d['_sim_hash'] = sim.next_hash() if sim is not None else 1
    return h


# ------------------------------------------------------------- importing

class Finder(object):
    """
    Loads openquake.commonlib from /repo's working tree, compiling each
    file once per interpreter but executing it afresh in each simulated process.
    """
    def find_module(self, name, path=None):
        if name == PKG or name.startswith(PKG + '.'):
            rel = name.split('.')
            base = os.path.join(REPO, *rel)
            if real['stat_exists'](base + '/__init__.py'):
                return Loader(base + '/__init__.py', base)
            if real['stat_exists'](base + '.py'):
                return Loader(base + '.py', None)
            # as CPython does: an implicit relative import that does not exist
            sys.modules[name] = None
        return None


class Loader(object):
    def __init__(self, fname, pkgdir):
        self.fname = fname
        self.pkgdir = pkgdir

    def load_module(self, name):
        if name in sys.modules:
            return sys.modules[name]
        mod = types.ModuleType(name)
        mod.__file__ = self.fname
        mod.__loader__ = self
        if self.pkgdir:
            mod.__path__ = [self.pkgdir]
            mod.__package__ = name
        else:
            mod.__package__ = name.rpartition('.')[0]
        sys.modules[name] = mod
        sim = core.CURRENT[0]
        if sim is not None:
            sim.importing += 1
        try:
            exec code_of(self.fname) in mod.__dict__
        except:
            del sys.modules[name]
            raise
        finally:
            if sim is not None:
                sim.importing -= 1
        own_hashes(mod)
        return mod


def code_of(fname):
    code = CODE.get(fname)
    if code is None:
        f = real_open(fname, 'rb')
        src = f.read().replace('\r\n', '\n')
        f.close()
        if not src.endswith('\n'):
            src += '\n'
        tree = Instrument(fname).visit(ast.parse(src, fname))
        code = CODE[fname] = compile(ast.fix_missing_locations(tree), fname, 'exec', 0, True)
    return code


class Instrument(ast.NodeTransformer):
    """
    Announces every statement to the simulator before it is executed (hang
    detection, preemption, coverage), and lets strings given to exec
    statements be compiled only once.
    """
    def __init__(self, fname):
        self.fname = fname

    def announce(self, stmt):
        LINES.append((self.fname, stmt.lineno))
        call = ast.Expr(value=ast.Call(
            func=ast.Name(id='__sim_line__', ctx=ast.Load()), args=[ast.Num(n=len(LINES) - 1)],
            keywords=[], starargs=None, kwargs=None))
        for node in ast.walk(call):
            ast.copy_location(node, stmt)
        return call

    def block(self, stmts, first):
        out = []
        for i, stmt in enumerate(stmts):
            doc = first and i == 0 and isinstance(stmt, ast.Expr) and isinstance(
                stmt.value, ast.Str)
            future = isinstance(stmt, ast.ImportFrom) and stmt.module == '__future__'
            stmt = self.visit(stmt)
            if not doc and not future:
                out.append(self.announce(stmt))
            out.append(stmt)
        return out

    def generic_visit(self, node):
        for name in ('body', 'orelse', 'finalbody', 'handlers'):
            value = getattr(node, name, None)
            if value is None or isinstance(value, ast.AST):
                continue
            if name == 'handlers':
                for h in value:
                    self.generic_visit(h)
            elif len(value):
                setattr(node, name, self.block(list(value), isinstance(
                    node, (ast.Module, ast.FunctionDef, ast.ClassDef))))
        return node

    def visit_Exec(self, node):
        if isinstance(node.body, ast.Tuple) and node.globals is None:
            parts = list(node.body.elts)
            node.body = parts[0]
            if len(parts) > 1:
                node.globals = parts[1]
            if len(parts) > 2:
                node.locals = parts[2]
        node.body = ast.copy_location(ast.Call(
            func=ast.copy_location(ast.Name(id='__sim_compiled__', ctx=ast.Load()), node.body),
            args=[node.body], keywords=[], starargs=None, kwargs=None), node.body)
        return node


LINES = []


def sim_line(idx):
    sim = core.CURRENT[0]
    if sim is not None:
        sim.line(LINES, idx)


__builtin__.__sim_line__ = sim_line


def compiled(body):
    if not isinstance(body, str):
        return body
    code = EXECS.get(body)
    if code is None:
        code = EXECS[body] = compile(body, '<string>', 'exec', 0, True)
    return code


__builtin__.__sim_compiled__ = compiled
EXECS = {}


def own_hashes(mod):
    """Identity hashes decide iteration orders: make them deterministic"""
    for name in sorted(mod.__dict__):
        cls = mod.__dict__[name]
        if not isinstance(cls, type) or getattr(cls, '__module__', None) != mod.__name__:
            continue
        if '__hash__' in cls.__dict__:
            continue
        if issubclass(cls, (BaseException, tuple, list, dict, str, int)):
            continue
        if issubclass(cls, type):
            cls.__hash__ = lambda self: hash(self.__name__) & 0x7fffffff
        elif cls.__hash__ in (object.__hash__, None) or '__slots__' not in cls.__dict__:
            try:
                cls.__hash__ = sim_hash
            except (TypeError, AttributeError):
                pass


def _exists(path):
    try:
        real['stat'](path)
    except OSError:
        return False
    return True


real['stat_exists'] = _exists


def boot(*names):
    """Start a simulated process: import the given modules afresh"""
    for m in list(sys.modules):
        # (None marks the implicit relative imports that do not exist)
        if (m == PKG or m.startswith(PKG + '.')) and sys.modules[m] is not None:
            del sys.modules[m]
    sim = core.CURRENT[0]
    enabled = None
    if sim is not None and sim.fs is not None:
        enabled, sim.fs.enabled = sim.fs.enabled, False
    try:
        mods = []
        for n in names:
            full = PKG + '.' + n
            __import__(full)
            mods.append(sys.modules[full])
    finally:
        if enabled is not None:
            sim.fs.enabled = enabled
    return mods[0] if len(mods) == 1 else mods


def begin(sim):
    """Reset all process-wide state before a run"""
    core.CURRENT[0] = sim
    sim.fs = simfs.SimFS(sim)
    sim.state = {'logged': [], 'pid': 4242, 'stdout': StringIO.StringIO()}
    os.environ.clear()
    os.environ.update(BASE_ENVIRON)
    random.seed(12345)
    sim.hash_mult = (2654435761, 40503, 7919, 1)[sim.draw(4)]
    sys.exc_clear()


def end():
    core.CURRENT[0] = None


def collect(sim):
    """
    What CPython does when the last references to file objects disappear, or
    at the end of the process: they are closed, and errors are ignored
    """
    for lst in (sim.state.pop('zips', ()), sim.state.pop('temps', ()), list(sim.fs.live)):
        for f in lst:
            try:
                f.close()
            except (EnvironmentError, ValueError, RuntimeError):
                pass
    del sim.fs.live[:]


def script(name, modname='script'):
    """Load a script of /repo as a module of the simulated process, or run it"""
    mod = types.ModuleType(modname)
    mod.__file__ = fname = os.path.join(REPO, name)
    exec code_of(fname) in mod.__dict__
    own_hashes(mod)
    return mod


class captured_stdout(object):
    """Prints of the code under test go to sim.state['stdout']"""
    def __enter__(self):
        self.old = sys.stdout
        sys.stdout = core.current().state['stdout']
        return sys.stdout

    def __exit__(self, etype, exc, tb):
        sys.stdout = self.old

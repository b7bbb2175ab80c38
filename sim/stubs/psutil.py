# Simulated psutil: processes and memory belong to the simulation
import collections
import core

__version__ = '1.2.1'
_usage = collections.namedtuple('usage', 'total used free percent')
_vm = collections.namedtuple('svmem', 'total available percent used free')
_mem = collections.namedtuple('meminfo', 'rss vms')


class Error(Exception):
    pass


class NoSuchProcess(Error):
    def __init__(self, pid, name=None, msg=None):
        self.pid = pid
        self.name = name
        self.msg = msg or 'process no longer exists (pid=%s)' % pid
        Error.__init__(self, self.msg)


class ZombieProcess(NoSuchProcess):
    pass


class AccessDenied(Error):
    def __init__(self, pid=None, name=None, msg=None):
        self.pid = pid
        self.name = name
        self.msg = msg or '(pid=%s)' % pid
        Error.__init__(self, self.msg)


class TimeoutExpired(Error):
    pass


def _percent():
    sim = core.current()
    hook = sim.state.get('memory')
    return hook() if hook is not None else 10.0


def phymem_usage():
    p = _percent()
    return _usage(16 << 30, int((16 << 30) * p / 100), 0, p)


def virtual_memory():
    p = _percent()
    return _vm(16 << 30, 0, p, int((16 << 30) * p / 100), 0)


def _table():
    return core.current().state.get('procs') or {}


def pid_exists(pid):
    p = _table().get(pid)
    return p is not None and p.alive


def get_pid_list():
    return sorted(pid for pid, p in _table().items() if p.alive)


pids = get_pid_list


class Process(object):
    def __init__(self, pid=None):
        if pid is None:
            import os
            pid = os.getpid()
        self.pid = pid
        p = _table().get(pid)
        if p is None or not p.alive:
            raise NoSuchProcess(pid)
        self._proc = p

    def __eq__(self, other):
        return isinstance(other, Process) and self.pid == other.pid

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return self.pid

    def is_running(self):
        return self._proc.alive

    def get_memory_info(self):
        return _mem(*self._proc.memory_info())

    memory_info = get_memory_info


for _name in ('phymem_usage', 'virtual_memory'):
    pass

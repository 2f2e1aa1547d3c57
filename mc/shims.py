"""Stand-ins for threading, queue, select, socket and time whose blocking operations go through the scheduler.

Sockets are real kernel sockets: an operation first waits (in the scheduler) until the kernel says it would not
block, then runs for real, so the semantics of close, shutdown, reset and backlog are the kernel's own.
"""
from __future__ import annotations

import collections
import fcntl
import heapq
import os
import queue as _queue
import select as _select
import socket as _socket
import struct
import sys
import termios
import threading as _threading
import time as _time
import types

from . import vsched
from .vsched import Killed, Sched


def _s() -> Sched | None:
    s = vsched.CURRENT
    if s is None or Sched.cur() is None:
        return None
    return s


def _point(desc: str) -> None:
    s = _s()
    if s is not None:
        s.point(desc)


def _block(pred, desc: str, timeout=None) -> bool:
    s = _s()
    if s is None:
        if pred():
            return True
        raise RuntimeError(f"would block outside the scheduler: {desc}")
    return s.block(pred, desc, timeout)


def _killed() -> bool:
    s = vsched.CURRENT
    return s is not None and s.killed


def _me():
    vt = Sched.cur()
    return vt if vt is not None else "host"


# ---- threading ----------------------------------------------------------------------------------------------------
class Lock:
    def __init__(self) -> None:
        self._owner = None

    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:
        _point("lock.acquire")
        if self._owner is None:
            self._owner = _me()
            return True
        if not blocking:
            return False
        if not _block(lambda: self._owner is None, "lock", None if timeout is None or timeout < 0 else timeout):
            return False
        self._owner = _me()
        return True

    def release(self) -> None:
        if self._owner is None:
            if _killed():
                return
            raise RuntimeError("release unlocked lock")
        self._owner = None

    def locked(self) -> bool:
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a) -> None:
        self.release()


class RLock:
    def __init__(self) -> None:
        self._owner = None
        self._count = 0

    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:
        me = _me()
        if self._owner is me:
            self._count += 1
            return True
        _point("rlock.acquire")
        if self._owner is not None:
            if not blocking:
                return False
            if not _block(lambda: self._owner is None, "rlock", None if timeout is None or timeout < 0 else timeout):
                return False
        self._owner = me
        self._count = 1
        return True

    def release(self) -> None:
        if self._owner is not _me():
            if _killed():
                return
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a) -> None:
        self.release()

    def _is_owned(self) -> bool:
        return self._owner is _me()


class Condition:
    def __init__(self, lock=None) -> None:
        self._lock = lock if lock is not None else RLock()
        self._waiters: list = []
        self.acquire = self._lock.acquire
        self.release = self._lock.release

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def _check(self) -> None:
        if self._lock._owner is not _me() and not _killed():
            raise RuntimeError("cannot use un-acquired condition")

    def wait(self, timeout=None) -> bool:
        self._check()
        token = [False]
        self._waiters.append(token)
        count = getattr(self._lock, "_count", 1)
        self._lock._owner = None
        if hasattr(self._lock, "_count"):
            self._lock._count = 0
        got = False
        try:
            got = _block(lambda: token[0], "condition", timeout)
        finally:
            if token in self._waiters:
                self._waiters = [w for w in self._waiters if w is not token]
            if not _killed():
                if self._lock._owner is not None:
                    _block(lambda: self._lock._owner is None, "condition lock")
                self._lock._owner = _me()
                if hasattr(self._lock, "_count"):
                    self._lock._count = count
        return got

    def wait_for(self, predicate, timeout=None):
        s = vsched.CURRENT
        end = None if timeout is None or s is None else s.clock + timeout
        result = predicate()
        while not result:
            left = None
            if end is not None:
                left = end - s.clock
                if left <= 0:
                    break
            self.wait(left)
            result = predicate()
        return result

    def notify(self, n: int = 1) -> None:
        self._check()
        for w in self._waiters[:n]:
            w[0] = True
        self._waiters = self._waiters[n:]

    def notify_all(self) -> None:
        self.notify(len(self._waiters))

    notifyAll = notify_all


class Event:
    def __init__(self) -> None:
        self._flag = False

    def is_set(self) -> bool:
        _point("event.is_set")
        return self._flag

    isSet = is_set

    def set(self) -> None:
        _point("event.set")
        self._flag = True

    def clear(self) -> None:
        _point("event.clear")
        self._flag = False

    def wait(self, timeout=None) -> bool:
        _point("event.wait")
        return _block(lambda: self._flag, "event", timeout)


class Semaphore:
    def __init__(self, value: int = 1) -> None:
        self._value = value

    def acquire(self, blocking: bool = True, timeout=None) -> bool:
        _point("sem.acquire")
        if self._value <= 0:
            if not blocking or not _block(lambda: self._value > 0, "semaphore", timeout):
                return False
        self._value -= 1
        return True

    def release(self, n: int = 1) -> None:
        self._value += n

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a) -> None:
        self.release()


class BoundedSemaphore(Semaphore):
    pass


_names = {"n": 0}


class Thread:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None) -> None:
        self._target = target
        self._args = args
        self._kwargs = kwargs or {}
        _names["n"] += 1
        self.name = name or f"Thread-{_names['n']}"
        self.daemon = bool(daemon)
        self._vt = None
        self._started = False

    def run(self) -> None:
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self) -> None:
        if self._started:
            raise RuntimeError("threads can only be started once")
        self._started = True
        s = _s()
        if s is None:
            raise RuntimeError("thread started outside the scheduler")

        me = Sched.cur()
        self._vt = s.spawn(self._run_checked, self.name, daemon=self.daemon)
        if me is not None and me.harness and me.atomic:
            # started by an uninterrupted harness thread
            self._vt.harness = True
            self._vt.atomic = 1
        _objs[self._vt] = self
        s.point("thread.start")

    def _run_checked(self) -> None:
        self.run()

    def join(self, timeout=None) -> None:
        if not self._started:
            raise RuntimeError("cannot join thread before it is started")
        if Sched.cur() is self._vt and self._vt is not None:
            raise RuntimeError("cannot join current thread")
        _point("thread.join")
        _block(lambda: self._vt.state == "done", f"join of {self.name}", timeout)

    def is_alive(self) -> bool:
        return self._started and self._vt.state != "done"

    @property
    def ident(self):
        return None if self._vt is None else 1000 + self._vt.id

    native_id = ident

    def getName(self):
        return self.name

    def setDaemon(self, d) -> None:
        self.daemon = d


_objs: dict = {}


class _MainObj:
    name = "MainThread"
    daemon = False
    ident = 1

    def is_alive(self) -> bool:
        return True


def current_thread():
    vt = Sched.cur()
    if vt is None:
        return _threading.current_thread()
    t = _objs.get(vt)
    if t is None:
        t = _MainObj()
        t.name = vt.name
        t.ident = 1000 + vt.id
        _objs[vt] = t
    return t


def get_ident():
    vt = Sched.cur()
    return _threading.get_ident() if vt is None else 1000 + vt.id


def reset() -> None:
    """Between executions."""
    _objs.clear()
    _names["n"] = 0


class _Mod(types.ModuleType):
    def __init__(self, name, real, **over) -> None:
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, k):
        return getattr(self.__dict__["_real"], k)


threading = _Mod(
    "threading",
    _threading,
    Lock=Lock,
    RLock=RLock,
    Condition=Condition,
    Event=Event,
    Semaphore=Semaphore,
    BoundedSemaphore=BoundedSemaphore,
    Thread=Thread,
    current_thread=current_thread,
    currentThread=current_thread,
    get_ident=get_ident,
)


# ---- queue --------------------------------------------------------------------------------------------------------
class Queue:
    def __init__(self, maxsize: int = 0) -> None:
        self.maxsize = maxsize
        self._unfinished = 0
        self._init()

    def __class_getitem__(cls, item):
        return cls

    def _init(self) -> None:
        self.queue = collections.deque()

    def _put(self, item) -> None:
        self.queue.append(item)

    def _get(self):
        return self.queue.popleft()

    def put(self, item, block: bool = True, timeout=None) -> None:
        _point("queue.put")
        if self.maxsize > 0 and len(self.queue) >= self.maxsize:
            if not block or not _block(lambda: len(self.queue) < self.maxsize, "queue.put", timeout):
                raise _queue.Full
        self._put(item)
        self._unfinished += 1

    def get(self, block: bool = True, timeout=None):
        _point("queue.get")
        if not self.queue:
            if not block or not _block(lambda: bool(self.queue), "queue.get", timeout):
                raise _queue.Empty
        return self._get()

    def put_nowait(self, item) -> None:
        self.put(item, False)

    def get_nowait(self):
        return self.get(False)

    def qsize(self) -> int:
        return len(self.queue)

    def empty(self) -> bool:
        _point("queue.empty")
        return not self.queue

    def full(self) -> bool:
        return self.maxsize > 0 and len(self.queue) >= self.maxsize

    def task_done(self) -> None:
        self._unfinished -= 1

    def join(self) -> None:
        _point("queue.join")
        _block(lambda: self._unfinished <= 0, "queue.join")


class LifoQueue(Queue):
    def _get(self):
        return self.queue.pop()


class PriorityQueue(Queue):
    def _init(self) -> None:
        self.queue = []

    def _put(self, item) -> None:
        heapq.heappush(self.queue, item)

    def _get(self):
        return heapq.heappop(self.queue)


queue = _Mod(
    "queue", _queue, Queue=Queue, SimpleQueue=Queue, LifoQueue=LifoQueue, PriorityQueue=PriorityQueue
)


# ---- sockets ------------------------------------------------------------------------------------------------------
_R = _select.POLLIN | _select.POLLHUP | _select.POLLERR | _select.POLLRDHUP
_W = _select.POLLOUT | _select.POLLHUP | _select.POLLERR


def _ready(fd: int, ev: int) -> bool:
    p = _select.poll()
    p.register(fd, ev)
    return bool(p.poll(0))


def _pending(fd: int) -> int:
    return struct.unpack("i", fcntl.ioctl(fd, termios.FIONREAD, b"\0\0\0\0"))[0] if fd >= 0 else 0


class FaultPlan:
    """Environment answers the current execution may choose: short reads, resets (see env points)."""

    short_reads = False
    sndbuf: int | None = None


PLAN = FaultPlan()


class VSocket(_socket.socket):
    """A real socket whose blocking operations wait in the scheduler."""

    _wr_shut = False

    def __init__(self, *a, **k) -> None:
        super().__init__(*a, **k)
        if PLAN.sndbuf:
            try:
                self.setsockopt(_socket.SOL_SOCKET, _socket.SO_SNDBUF, PLAN.sndbuf)
            except OSError:
                pass

    def _wait(self, ev: int, desc: str) -> int | None:
        """Blocks until ready.  Returns a dup'd descriptor to use when the wait was real (as the kernel, which
        keeps the file of a blocked call alive), else None."""
        if self.fileno() < 0:
            return None  # the real call will raise EBADF
        t = self.gettimeout()
        if t == 0.0 or _ready(self.fileno(), ev):
            return None
        if ev == _W and self.getsockopt(_socket.SOL_SOCKET, _socket.SO_ACCEPTCONN):
            return None  # fails at once
        fd = os.dup(self.fileno())
        # a blocked (not polling) writer notices its own side being shut down
        wr = ev == _W and t is None
        try:
            if not _block(lambda: _ready(fd, ev) or (wr and self._wr_shut), desc, t):
                raise TimeoutError("timed out")
        except BaseException:
            os.close(fd)
            raise
        return fd

    def _on(self, fd, fn):
        """Runs fn on a socket object for the descriptor (the dup when the wait was real)."""
        if fd is None:
            return fn(super())
        s = _socket.socket(fileno=fd)
        try:
            return fn(s)
        finally:
            s.close()

    def accept(self):
        _point("accept")
        fd = self._wait(_R, "accept")
        if fd is None:
            nfd, addr = self._accept()
        else:
            s = _socket.socket(fileno=fd)
            try:
                nfd, addr = s._accept()
            finally:
                s.close()
        sock = type(self)(self.family, self.type, self.proto, fileno=nfd)
        sock.setblocking(True)
        return sock, addr

    def connect(self, addr):
        _point("connect")
        return super().connect(addr)

    def _limit(self, n: int, avail: int) -> int:
        """A short read is an environment answer."""
        m = min(n, avail)
        if not PLAN.short_reads or m <= 1:
            return m
        opts = [m, 1]
        if m > 3:
            opts.append(m - 1)
        s = _s()
        if s is None:
            return m
        return opts[s.env([f"read {o} of {n}" if o != m else f"read all {n}" for o in opts])]

    def recv_into(self, buffer, nbytes: int = 0, flags: int = 0):
        _point("recv")
        fd = self._wait(_R, "recv")
        n = nbytes or len(buffer)

        def go(s):
            k = n
            if PLAN.short_reads:
                avail = _pending(s.fileno())
                if avail:
                    k = max(1, self._limit(n, avail))
            return s.recv_into(buffer, k, flags)

        return self._on(fd, go)

    def recv(self, n: int, flags: int = 0):
        _point("recv")
        fd = self._wait(_R, "recv")

        def go(s):
            k = n
            if PLAN.short_reads:
                avail = _pending(s.fileno())
                if avail:
                    k = max(1, self._limit(n, avail))
            return s.recv(k, flags)

        return self._on(fd, go)

    def _send_some(self, data) -> int:
        while True:
            fd = self._wait(_W, "send")
            try:
                return self._on(fd, lambda s: s.send(data, _socket.MSG_DONTWAIT | _socket.MSG_NOSIGNAL))
            except BlockingIOError:
                if self.gettimeout() == 0.0:
                    raise
                # writable, but not for this much: wait until something changes
                n = os.dup(self.fileno())
                left = self._outq(n)
                try:
                    _block(
                        lambda: self._wr_shut
                        or _ready(n, _select.POLLHUP | _select.POLLERR)
                        or (_ready(n, _W) and self._outq(n) != left)
                        or self._outq(n) == 0,
                        "send",
                    )
                finally:
                    os.close(n)

    @staticmethod
    def _outq(fd: int) -> int:
        try:
            return struct.unpack("i", fcntl.ioctl(fd, termios.TIOCOUTQ, b"\0\0\0\0"))[0]
        except OSError:
            return 0

    def send(self, data, flags: int = 0):
        _point("send")
        return self._send_some(data)

    def sendall(self, data, flags: int = 0):
        _point("send")
        view = memoryview(data).cast("B")
        while len(view):
            n = self._send_some(view)
            view = view[n:]
            if len(view):
                _point("send more")

    def shutdown(self, how):
        _point("shutdown")
        super().shutdown(how)
        if how in (_socket.SHUT_WR, _socket.SHUT_RDWR):
            self._wr_shut = True

    def close(self):
        if self.fileno() >= 0:
            _point("close")
        return super().close()


def v_select(rlist, wlist, xlist, timeout=None):
    _point("select")

    def fds(lst):
        out = []
        for s in lst:
            fd = s if isinstance(s, int) else s.fileno()
            if fd < 0:
                raise ValueError("file descriptor cannot be a negative integer (-1)")
            out.append((s, fd))
        return out

    rf, wf = fds(rlist), fds(wlist)

    def check():
        r, w, _ = _select.select([fd for _, fd in rf], [fd for _, fd in wf], [], 0)
        return r, w

    r, w = check()
    if not r and not w and not (timeout is not None and timeout == 0):
        # as the kernel does, keep the files of a blocked call alive
        dups = {fd: os.dup(fd) for _, fd in rf + wf}

        def pred():
            a, b, _ = _select.select([dups[fd] for _, fd in rf], [dups[fd] for _, fd in wf], [], 0)
            return bool(a or b)

        try:
            _block(pred, "select", timeout)
            back = {d: fd for fd, d in dups.items()}
            a, b, _ = _select.select([dups[fd] for _, fd in rf], [dups[fd] for _, fd in wf], [], 0)
            r, w = [back[x] for x in a], [back[x] for x in b]
        finally:
            for d in dups.values():
                os.close(d)
    return [s for s, fd in rf if fd in r], [s for s, fd in wf if fd in w], []


def create_server(address, **kw):
    real = _socket.create_server(address, **kw)
    s = VSocket(real.family, real.type, real.proto, fileno=real.detach())
    return s


def create_connection(address, timeout=None, *a, **kw):
    raise OSError("not modelled")


def socketpair(*a, **k):
    x, y = _socket.socketpair(*a, **k)
    return (
        VSocket(x.family, x.type, x.proto, fileno=x.detach()),
        VSocket(y.family, y.type, y.proto, fileno=y.detach()),
    )


socket = _Mod(
    "socket",
    _socket,
    socket=VSocket,
    SocketType=VSocket,
    create_server=create_server,
    create_connection=create_connection,
    socketpair=socketpair,
)
select = _Mod("select", _select, select=v_select)


# ---- time ---------------------------------------------------------------------------------------------------------
def _now() -> float:
    s = vsched.CURRENT
    return s.clock if s is not None and Sched.cur() is not None else _time.monotonic()


def _sleep(n: float) -> None:
    s = _s()
    if s is None:
        return
    s.point("sleep")
    s.block(lambda: False, "sleep", n)


time = _Mod("time", _time, time=_now, monotonic=_now, perf_counter=_now, sleep=_sleep)

MODULES = {"threading": threading, "queue": queue, "select": select, "socket": socket, "time": time}

"""Virtual time for the code under test.

Import this module before openleadr (or anything that does `from datetime import datetime`).
It replaces datetime.datetime by a subclass whose now()/utcnow()/today() read a virtual clock, and
offers an asyncio event loop whose time only moves when every task is idle: it then jumps to the
next timer.  No real sleeping, no dependence on the machine's speed: runs are deterministic.
"""
import os
os.environ['TZ'] = 'UTC'
import time as _time
_time.tzset()
import asyncio
import datetime as _dt
import heapq
import itertools
import selectors
import sys
import threading

REAL_DATETIME = _dt.datetime
UTC = _dt.timezone.utc
EPOCH = REAL_DATETIME(2026, 3, 2, 0, 0, 0, tzinfo=UTC)   # a Monday, midnight UTC


ZONES = ['UTC', 'Asia/Kathmandu', 'America/Bogota', 'Pacific/Kiritimati']     # none has daylight saving time


def set_zone(name):
    """The time zone of the host: nothing that the code under test does may depend on it"""
    if not os.path.exists(os.path.join('/usr/share/zoneinfo', name)):
        name = 'UTC'
    os.environ['TZ'] = name
    _time.tzset()
    if 'tzlocal' in sys.modules:
        sys.modules['tzlocal'].reload_localzone()


def local(d):
    """The naive local time of a moment"""
    return REAL_DATETIME.astimezone(d).replace(tzinfo=None)


def offset():
    """How many seconds the local time is ahead of UTC"""
    return int((local(EPOCH) - EPOCH.replace(tzinfo=None)).total_seconds())


class Clock:
    t = 0.0            # seconds since EPOCH

    @classmethod
    def now(cls):
        return EPOCH + _dt.timedelta(seconds=cls.t)


class _Meta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, REAL_DATETIME)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, REAL_DATETIME)


class VDatetime(REAL_DATETIME, metaclass=_Meta):
    @classmethod
    def _mk(cls, d):
        return cls(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, d.tzinfo, fold=d.fold)

    @classmethod
    def now(cls, tz=None):
        d = Clock.now()
        if tz is None:
            return cls._mk(local(d))
        return cls._mk(d.astimezone(tz))

    @classmethod
    def utcnow(cls):
        return cls._mk(Clock.now().replace(tzinfo=None))

    @classmethod
    def today(cls):
        return cls.now()


VDatetime.__name__ = VDatetime.__qualname__ = 'datetime'


_REAL = {n: getattr(_time, n) for n in ('time', 'monotonic', 'perf_counter', 'time_ns', 'monotonic_ns', 'sleep')}


def _for_openleadr(name, virtual):
    real = _REAL[name]

    def f(*a):
        caller = sys._getframe(1).f_globals.get('__name__', '')
        return virtual(*a) if caller.partition('.')[0] == 'openleadr' else real(*a)
    f.__name__ = name
    return f


def _sleep(s):
    Clock.t += s                    # the whole process is blocked meanwhile


def install():
    # the code under test may also read the clock through the time module; nothing else is affected
    stamp = lambda: EPOCH.timestamp() + Clock.t
    for name, f in {'time': stamp, 'monotonic': lambda: 1000 + Clock.t, 'perf_counter': lambda: 1000 + Clock.t,
                    'time_ns': lambda: int(stamp() * 10 ** 9), 'monotonic_ns': lambda: int((1000 + Clock.t) * 10 ** 9),
                    'sleep': _sleep}.items():
        setattr(_time, name, _for_openleadr(name, f))
    assert _dt.datetime is VDatetime or 'openleadr' not in sys.modules, "vclock must be installed before openleadr is imported"
    _dt.datetime = VDatetime


class _Selector(selectors.SelectSelector):
    """Never blocks: waiting for a timer moves the virtual clock instead."""
    loop = None

    def select(self, timeout=None):
        ready = super().select(0)
        if ready:
            return ready
        if timeout is None:
            # nothing scheduled and nothing ready: only possible outside run_until_idle
            raise RuntimeError("virtual loop: deadlock (nothing scheduled)")
        if timeout > 0:
            loop = self.loop
            when = loop._scheduled[0].when() if loop._scheduled else Clock.t + timeout
            limit = loop.time_limit
            if limit is not None and when > limit:
                Clock.t = max(Clock.t, limit)
                loop.hit_limit = True
                loop.call_soon(loop._on_limit)
            else:
                Clock.t = max(Clock.t, when)
        return ready


class _Timer(asyncio.TimerHandle):
    """Of two timers for the same moment the older one is first: virtual moments coincide, real ones do not"""
    __slots__ = ('seq',)

    def __lt__(self, other):
        return (self._when, self.seq) < (other._when, other.seq)


class VLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        self._vsel = _Selector()
        super().__init__(self._vsel)
        self._vsel.loop = self
        self.real = self
        self.time_limit = None
        self.hit_limit = False
        self._waiter = None
        self._clock_resolution = 1e-6
        self._seq = itertools.count()

    def time(self):
        return Clock.t

    def call_at(self, when, callback, *args, context=None):
        self._check_closed()
        timer = _Timer(when, callback, args, self, context)
        timer.seq = next(self._seq)
        heapq.heappush(self._scheduled, timer)
        timer._scheduled = True
        return timer

    def _on_limit(self):
        if self._waiter is not None and not self._waiter.done():
            self._waiter.set_result(None)

    def advance_to(self, t):
        """Run everything that is due up to and including virtual second t, then stop at t."""
        assert not self.is_running()
        self.time_limit = t
        self._waiter = self.create_future()

        async def wait():
            await self._waiter
        # a sentinel timer guarantees the loop reaches t even if nothing else is scheduled
        h = self.call_at(t + 3600.0, lambda: None)
        try:
            self.run_until_complete(wait())
        finally:
            h.cancel()
            self.time_limit = None
            self._waiter = None
        Clock.t = max(Clock.t, t)

    def settle(self):
        """Run everything that can run without time passing."""
        self.advance_to(Clock.t)


# ------------------------------------------------------------------ several drivers on one loop
class Stop(BaseException):
    pass


class _Turn(threading.Thread):
    """One of the drivers: it runs until it lets time pass, then waits until the loop has got there"""

    def __init__(self, turns, n, at, fn):
        super().__init__(daemon=True)
        self.turns, self.n, self.fn, self.target = turns, n, fn, at
        self.go, self.result, self.error = threading.Event(), None, None

    def run(self):
        self.go.wait()
        self.go.clear()
        try:
            if not self.turns.stopped:
                LOCAL.turn = self
                asyncio.set_event_loop(self.turns.loop)
                self.result = self.fn()
        except BaseException as err:
            self.error = err
        self.target = None
        self.turns.back.set()

    def wait(self, t):
        self.target = max(t, Clock.t)
        self.turns.back.set()
        self.go.wait()
        self.go.clear()
        if self.turns.stopped:
            raise Stop()


class _Shared:
    """What a driver sees of the loop that it shares"""

    def __init__(self, real):
        self.real = real

    def __getattr__(self, name):
        return getattr(self.real, name)

    def advance_to(self, t):
        LOCAL.turn.wait(t)

    def settle(self):
        LOCAL.turn.wait(Clock.t)

    def close(self):
        pass


class Turns:
    def __init__(self, choose):
        """choose(list) -> one of them: who is next at the same time"""
        self.choose, self.stopped, self.back = choose, False, threading.Event()
        self.loop = new_loop()

    def run(self, jobs):
        """jobs: (start time, function) each; returns [(result, error)]"""
        ds = [_Turn(self, n, at, fn) for n, (at, fn) in enumerate(jobs)]
        for d in ds:
            d.start()
        try:
            while True:
                live = [d for d in ds if d.target is not None]
                if not live or any(d.error for d in ds):
                    return [(d.result, d.error) for d in ds]
                t = min(d.target for d in live)
                d = self.choose([d for d in live if d.target == t])
                self.loop.advance_to(t)
                self.pass_to(d)
        finally:
            self.stopped = True
            for d in ds:
                while d.target is not None:
                    self.pass_to(d)
                d.join()
            for t in asyncio.all_tasks(self.loop):
                t.cancel()
            try:
                self.loop.settle()
            except BaseException:
                pass
            self.loop.close()

    def pass_to(self, d):
        d.go.set()
        self.back.wait()
        self.back.clear()


LOCAL = threading.local()


def part():
    """Which of several drivers this is; None: the only one"""
    turn = getattr(LOCAL, 'turn', None)
    return None if turn is None else turn.n


def new_loop(t=0.0):
    if part() is not None:
        loop = _Shared(LOCAL.turn.turns.loop)
        if t > Clock.t:
            loop.advance_to(t)
        return loop
    Clock.t = t
    loop = VLoop()
    asyncio.set_event_loop(loop)
    return loop

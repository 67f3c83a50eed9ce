"""The simulated world: every source of nondeterminism jinete can see is behind a seam installed here.

``install()`` must run before jinete is imported.  Outside a ``World`` every seam delegates to the real thing; inside
one, clocks, entropy, the process-wide random generator and the hash (that is, the set iteration order) of model objects
are decided by named pseudo-random streams derived from the world's seed.
"""
import datetime
import hashlib
import os
import random
import sys
import threading
import time
import weakref

RealRandom = random.Random
RealDateTime = datetime.datetime
REAL = {
    name: getattr(time, name)
    for name in (
        "time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns", "process_time",
        "process_time_ns", "thread_time", "thread_time_ns", "clock_gettime", "clock_gettime_ns", "sleep",
    )
}
real_urandom = os.urandom
real_clock = REAL["perf_counter"]
RealLock = threading.Lock
RealRLock = threading.RLock

CURRENT = None  # The active world, if any.


def derive(*parts):
    """A 64-bit seed derived from the parts, independent of PYTHONHASHSEED."""
    text = "/".join(str(p) for p in parts)
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], "big")


def stream(*parts):
    return RealRandom(derive(*parts))


LAYOUTS = ("random", "asc", "desc", "few", "addr")


class _HashStream:
    """Decides the hashes of the model objects created by one simulated thread."""

    def __init__(self, seed, layout):
        self.random = stream(seed, "layout", layout)
        self.layout = layout
        self.count = 0

    def draw(self):
        self.count += 1
        layout = self.layout
        if layout == "random":
            return self.random.getrandbits(60)
        if layout == "asc":
            return self.count
        if layout == "desc":
            return (1 << 40) - self.count
        if layout == "few":
            return self.random.randrange(8)
        return 0x7F0000000000 + 16 * self.random.randrange(1 << 18)


class World:
    """One simulated execution environment."""

    def __init__(self, seed, layout="random", epoch=1.7e9, tick=1e-6, layout_seed=None):
        self.layout_seed = seed if layout_seed is None else layout_seed
        self.layout = layout
        self.entropy = stream(seed, "entropy")
        self.now = 0.0  # Really elapsed simulated time.
        self.idle = 0.0  # The part of it in which the process did not compute.
        self.wall_offset = epoch
        self.tick = tick
        self.wall_jumps = 0
        self.clock_reads = 0
        self.on_clock_read = None
        self.hash_streams = {}
        self.hashes = 0
        self.by_content = False  # Whether equal trips and vehicles get equal hashes, whoever loads them.

    # -- activation
    def __enter__(self):
        global CURRENT
        self._previous = CURRENT
        CURRENT = self
        random.seed(self.entropy.getrandbits(64))
        return self

    def __exit__(self, *exc):
        global CURRENT
        CURRENT = self._previous
        return False

    # -- hashes
    def reset_layout(self, seed=None):
        """Restart the hash streams, so that two runs see the same iteration order."""
        if seed is not None:
            self.layout_seed = seed
        self.hash_streams = {}

    def draw_hash(self):
        self.hashes += 1
        key = getattr(_local, "name", "main")
        hash_stream = self.hash_streams.get(key)
        if hash_stream is None:
            hash_stream = self.hash_streams[key] = _HashStream(f"{self.layout_seed}/{key}", self.layout)
        return hash_stream.draw()

    def content_hash(self, key):
        self.hashes += 1
        return _HashStream(f"{self.layout_seed}/{key}", "few" if self.layout == "few" else "random").draw()

    # -- clocks
    def advance(self, seconds, idle=False):
        self.now += seconds
        if idle:
            self.idle += seconds

    def jump_wall(self, seconds):
        self.wall_offset += seconds
        self.wall_jumps += 1

    def read_clock(self, kind):
        self.clock_reads += 1
        self.now += self.tick
        if self.on_clock_read is not None:
            self.on_clock_read(self)
        return self.now + {"wall": self.wall_offset, "process": -self.idle}.get(kind, 0.0)


_local = threading.local()


def set_thread_name(name):
    _local.name = name


class SimRandom(RealRandom):
    """``random.Random`` whose unseeded instances draw their seed from the simulated entropy."""

    def __init__(self, x=None):
        if x is None and CURRENT is not None:
            x = CURRENT.entropy.getrandbits(64)
        super().__init__(x)

    def seed(self, a=None, version=2):
        if a is None and CURRENT is not None:
            a = CURRENT.entropy.getrandbits(64)
        super().seed(a, version)


def _kind(name):
    return "wall" if name.startswith("time") else "process" if name.startswith(("process", "thread")) else "steady"


def _clock(name):
    real, kind, nanoseconds = REAL[name], _kind(name), name.endswith("_ns")

    def read():
        if CURRENT is None:
            return real()
        value = CURRENT.read_clock(kind)
        return int(value * 1e9) if nanoseconds else value

    read.__name__ = name
    return read


def _gettime(name):
    real, nanoseconds = REAL[name], name.endswith("_ns")
    kinds = {time.CLOCK_REALTIME: "wall", time.CLOCK_PROCESS_CPUTIME_ID: "process",
             time.CLOCK_THREAD_CPUTIME_ID: "process"}

    def read(clock):
        if CURRENT is None:
            return real(clock)
        value = CURRENT.read_clock(kinds.get(clock, "steady"))
        return int(value * 1e9) if nanoseconds else value

    read.__name__ = name
    return read


class _DateTimeMeta(type):
    def __instancecheck__(cls, value):
        return isinstance(value, RealDateTime)

    def __subclasscheck__(cls, other):
        return issubclass(other, RealDateTime)


class SimDateTime(RealDateTime, metaclass=_DateTimeMeta):
    """``datetime`` whose current time is the simulated wall clock's."""

    @classmethod
    def now(cls, tz=None):
        if CURRENT is None:
            return RealDateTime.now(tz)
        return RealDateTime.fromtimestamp(CURRENT.read_clock("wall"), tz)

    @classmethod
    def utcnow(cls):
        if CURRENT is None:
            return RealDateTime.utcnow()
        return RealDateTime.fromtimestamp(CURRENT.read_clock("wall"), datetime.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


def _sleep(seconds):
    if CURRENT is None:
        return REAL["sleep"](seconds)
    CURRENT.advance(max(0.0, seconds), idle=True)


def _urandom(n):
    if CURRENT is None:
        return real_urandom(n)
    return CURRENT.entropy.randbytes(n)


class SimLock:
    """A lock that hands the simulated processor over instead of blocking the only running thread."""

    def __init__(self, factory=RealLock):
        self._lock = factory()

    def acquire(self, blocking=True, timeout=-1):
        from . import sched

        scheduler = sched.CURRENT
        if scheduler is None or not scheduler.owns_current_thread():
            return self._lock.acquire(blocking, timeout)
        if not blocking:
            return self._lock.acquire(False)
        while not self._lock.acquire(False):
            scheduler.blocked()
        return True

    def release(self):
        self._lock.release()

    def locked(self):
        return self._lock.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def __getattr__(self, name):
        return getattr(self._lock, name)


_hashes = {}


def _model_hash(self):
    key = id(self)
    entry = _hashes.get(key)
    if entry is None or entry[0]() is not self:
        if CURRENT is None:
            value = object.__hash__(self)
        elif CURRENT.by_content and type(self).__name__ in ("Trip", "Vehicle"):
            value = CURRENT.content_hash(f"{type(self).__name__}/{self.identifier}")
        else:
            value = CURRENT.draw_hash()
        entry = _hashes[key] = (weakref.ref(self), value)
    return entry[1]


_installed = False


def install(repo=None):
    """Install every seam and import jinete from the repository's working tree."""
    global _installed
    if _installed:
        return
    _installed = True
    repo = repo or os.environ.get("JINETE_REPO", "/repo")
    sys.path.insert(0, repo)
    sys.dont_write_bytecode = True

    for name in REAL:
        if name == "sleep":
            time.sleep = _sleep
        else:
            setattr(time, name, (_gettime if name.startswith("clock") else _clock)(name))
    os.urandom = _urandom
    random.Random = SimRandom

    # Third-party modules are imported with the real locks.
    import cached_property  # noqa: F401
    import matplotlib.pyplot  # noqa: F401
    import networkx  # noqa: F401
    import pulp  # noqa: F401
    import seaborn  # noqa: F401

    from . import fs

    fs.install()
    datetime.datetime = SimDateTime
    threading.Lock = SimLock
    threading.RLock = lambda: SimLock(RealRLock)

    import jinete

    real = os.path.realpath(jinete.__file__)
    if not real.startswith(os.path.realpath(repo) + os.sep):
        raise RuntimeError(f"jinete was imported from {real}, not from {repo}")
    _decide_hashes()


def _decide_hashes():
    from jinete.models import Model

    if Model.__hash__ is object.__hash__:
        Model.__hash__ = _model_hash


def without_assertions():
    """Import the library again, as ``python -O`` does."""
    from importlib.machinery import SourceFileLoader

    prefix = repo_prefix()
    for name in [n for n in sys.modules if n == "jinete" or n.startswith("jinete.")]:
        del sys.modules[name]
    real = SourceFileLoader.get_code

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if not os.path.realpath(path).startswith(prefix):
            return real(self, fullname)
        return compile(self.get_data(path), path, "exec", dont_inherit=True, optimize=1)

    SourceFileLoader.get_code = get_code
    try:
        import jinete  # noqa: F401
    finally:
        SourceFileLoader.get_code = real
    _decide_hashes()


def repo_prefix():
    import jinete

    return os.path.dirname(os.path.realpath(jinete.__file__)) + os.sep


def is_repo_code(code, _cache={}):
    known = _cache.get(code.co_filename)
    if known is None:
        known = _cache[code.co_filename] = os.path.realpath(code.co_filename).startswith(repo_prefix())
    return known

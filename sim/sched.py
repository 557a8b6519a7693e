"""The scheduler seams: where a call can be cut short, and which thread runs.

Interrupts.  `Stepper` counts the steps (lines, or single byte-code
instructions) which the code of the repository executes during one call, and can
raise KeyboardInterrupt or MemoryError at any one of them.

Threads.  `Threads` runs several jobs on real threads of which exactly one is
ever runnable: the others are parked on a baton.  At every step of repository
code the simulator decides, from its seed or from an explicit list of switches,
who holds the baton next.  Locks which repository code creates are replaced by
cooperative ones (`install_locks`), so that a parked owner blocks nobody for
real and a deadlock is detected instead of suffered.
"""
import dis
import os
import queue
import random
import select
import sys
import threading
import time
import _thread

from . import core

PREFIX = (core.REPO + '/',)
RACE_FILES = tuple(m for m in (os.__file__,))


class StepCap(BaseException):
    """The call used more steps than any call of its kind may need."""


def _ours(code):
    return code.co_filename.startswith(PREFIX)


class Stepper:
    """Counts steps of repository code; raises `exc` at step `target`."""

    def __init__(self, fine=False, target=None, exc=KeyboardInterrupt, cap=None, mark=False):
        self.mark = mark                # note the steps which touch shared state
        self.hot = []
        self.glow = 0
        self.fine = fine
        self.target = target
        self.exc = exc
        self.cap = cap
        self.n = 0
        self.fired = None
        self.what = 'opcode' if fine else 'line'

    def _global(self, frame, event, arg):
        if not _ours(frame.f_code):
            return None
        if self.fine:
            frame.f_trace_opcodes = True
        return self._marking if self.mark and hot_lines(frame) else self._local

    def _marking(self, frame, event, arg):
        if event == self.what:
            if frame.f_lineno in hot_lines(frame):
                self.glow = 12 if self.fine else 3
            if self.glow:
                self.glow -= 1
                self.hot.append(self.n + 1)
        self._local(frame, event, arg)
        return self._marking

    def _local(self, frame, event, arg):
        if event != self.what:
            return self._local
        self.n += 1
        if self.n == self.target:
            self.fired = '%s:%s' % (os.path.relpath(frame.f_code.co_filename, core.REPO),
                                    frame.f_lineno)
            raise self.exc('simulated')
        if self.cap and self.n > self.cap:
            raise StepCap('more than %d steps' % self.cap)
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *_):
        sys.settrace(None)
        return False


def spot(fraction, size):
    """A step of a call, given its length and the steps of it which touch shared state."""
    n, hot = size
    if hot and fraction < 0.6:
        return hot[int(fraction / 0.6 * len(hot))]
    return 1 + int(fraction * n)


def reaches(error, exc):
    """The simulated exception is `error` or one of its causes."""
    seen = set()
    while error is not None and id(error) not in seen:
        if isinstance(error, exc):
            return True
        seen.add(id(error))
        error = error.__cause__ or error.__context__
    return False


# -------------------------------------------------------------------- locks
_active = None                      # the running Threads, if any
_real_lock = _thread.allocate_lock
_real_rlock = threading.RLock


class Deadlock(BaseException):
    pass


class SimLock:
    """Cooperative replacement for Lock and RLock."""

    def __init__(self, reentrant):
        self._re = reentrant
        self._owner = None
        self._depth = 0

    def _me(self):
        if _active is not None:
            me = _active.me()
            if me is not None:
                return ('sim', me)
        return ('os', threading.get_ident())

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while self._owner is not None:
            if self._re and self._owner == me:
                break
            if not blocking:
                return False
            if me[0] != 'sim':
                if self._owner != me and len(sys._current_frames()) > 1:
                    if self._wait(timeout):     # threads of the code itself, which no simulator schedules
                        continue
                    if timeout is not None and timeout >= 0:
                        return False
                raise Deadlock('lock is never released')
            if timeout is not None and timeout >= 0 and not _active.block(self, soft=True):
                return False
            elif timeout is None or timeout < 0:
                _active.block(self)
        self._owner = me
        self._depth += 1
        if me[0] == 'sim':
            _active.nudge()
        return True

    def _wait(self, timeout):
        end = time.monotonic() + (20 if timeout is None or timeout < 0 else timeout)
        while self._owner is not None and time.monotonic() < end:
            time.sleep(0.0005)
        return self._owner is None

    def _release_save(self):
        depth, self._depth, self._owner = self._depth, 0, None
        return depth

    def _acquire_restore(self, depth):
        self.acquire()
        self._depth = depth

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._depth -= 1
        if self._depth == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def _is_owned(self):
        return self._owner == self._me()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *_):
        self.release()

    def _at_fork_reinit(self):
        self._owner = None
        self._depth = 0


MACHINERY = {threading.__file__, queue.__file__}


def _for_us():
    """Is this lock made by repository code, directly or as part of a Condition, Event, Queue, ...?"""
    f = sys._getframe(2)
    while f is not None and f.f_code.co_filename in MACHINERY:
        if f.f_code is threading.Thread.__init__.__code__:
            return False
        f = f.f_back
    return f is not None and _ours(f.f_code)


def install_locks():
    """Locks made by repository code from now on are cooperative."""
    def lock():
        return SimLock(False) if _for_us() else _real_lock()

    def rlock():
        return SimLock(True) if _for_us() else _real_rlock()
    threading.Lock = threading._allocate_lock = lock
    threading.RLock = rlock


# ----------------------------------------------------------- shared state
_hot = {}
QUIET = (type(None), bool, int, float, complex, str, bytes, tuple, frozenset, type, type(os), type(lambda: 0),
         type(len), type(sys.settrace))


def _shared(value):
    """Could two threads disturb each other through this module-level value?"""
    return not isinstance(value, QUIET) and not isinstance(value, threading.local) and not isinstance(value, SimLock) \
        and not callable(value)


# what belongs to the process or to the file system
COMMON = {'chdir', 'getcwd', 'umask', 'environ', 'putenv', 'setlocale', 'seterr', 'errstate', 'seed', 'simplefilter',
          'filterwarnings', 'catch_warnings', 'setrecursionlimit', 'redirect_stdout', 'stdout', 'localcontext', 'getcontext',
          'tempdir', 'open', 'remove', 'unlink', 'replace', 'rename', 'exists', 'makedirs', 'mkdir', 'rmtree', 'Env',
          'signal', 'setitimer'}


def hot_lines(frame):
    """Lines of a function which use module-level state other than constants,
    functions and modules, the process or files: where a switch is most likely to matter."""
    code = frame.f_code
    known = _hot.get(id(code))
    if known is not None:
        return known[1]
    lines = set()
    names = set()
    fn = frame.f_globals.get(code.co_name)
    if getattr(fn, '__code__', None) is code:
        args = code.co_varnames[:code.co_argcount]
        d = fn.__defaults__ or ()
        names = {a for a, v in zip(args[len(args) - len(d):], d) if _shared(v)}
    line = code.co_firstlineno
    for ins in dis.get_instructions(code):
        line = ins.positions.lineno or line
        name = ins.opname
        if name in ('STORE_GLOBAL', 'DELETE_GLOBAL') or \
                (name == 'LOAD_GLOBAL' and ins.argval in code_globals(code) | written(frame.f_globals)) or \
                (name in ('LOAD_GLOBAL', 'LOAD_NAME') and _shared(frame.f_globals.get(ins.argval))) or \
                (name.startswith('LOAD_FAST') and ins.argval in names) or \
                (name.endswith('_DEREF') and ins.argval in code.co_freevars) or \
                (name in ('STORE_ATTR', 'DELETE_ATTR')) or \
                (name in ('LOAD_ATTR', 'LOAD_METHOD') and ins.argval in attributes(frame.f_globals)) or \
                (name in ('LOAD_ATTR', 'LOAD_METHOD', 'LOAD_GLOBAL', 'LOAD_NAME') and ins.argval in COMMON):
            lines.add(line)
    _hot[id(code)] = (code, lines)      # (kept alive, so that the id stays its own)
    return lines


def code_globals(code):
    return {i.argval for i in dis.get_instructions(code) if i.opname == 'STORE_GLOBAL'}


_written = {}


def codes(globs):
    """All code of a module."""
    def inner(c):
        yield c
        for k in c.co_consts:
            if hasattr(k, 'co_consts'):
                yield from inner(k)
    for v in list(globs.values()):
        for f in [v] + (list(vars(v).values()) if isinstance(v, type) else []):
            f = getattr(f, '__func__', None) or getattr(f, 'fget', None) or f
            try:
                c = getattr(getattr(f, '__wrapped__', f), '__code__', None)
            except Exception:
                continue
            if hasattr(c, 'co_consts') and c.co_filename == globs.get('__file__'):
                yield from inner(c)


def _scan(globs):
    key = id(globs)
    if key not in _written:
        names, attrs = set(), set()
        for c in codes(globs):
            for i in dis.get_instructions(c):
                if i.opname == 'STORE_GLOBAL':
                    names.add(i.argval)
                elif i.opname == 'STORE_ATTR':
                    attrs.add(i.argval)
        _written[key] = names, attrs
    return _written[key]


def written(globs):
    """Names which functions of this module assign to (`global x`)."""
    return _scan(globs)[0]


def attributes(globs):
    """Attributes (of functions, classes, objects) which functions of this module assign to."""
    return _scan(globs)[1]


# ------------------------------------------------------------------ threads
class Threads:
    """Run jobs (callables) on threads under a decided interleaving.

    quantum: mean number of steps between switches (decided by `rng`);
    switches: explicit [[step, thread], ...] instead.
    """

    def __init__(self, jobs, fine=False, quantum=50, seed=0, switches=None, cap=4_000_000,
                 burst=0.0, heat=0.0):
        self.jobs = jobs
        self.fine = fine
        self.what = 'opcode' if fine else 'line'
        self.rng = random.Random(seed)
        self.quantum = quantum
        self.burst = burst
        self.heat = heat                    # probability of a switch at a hot line
        self.glow = 0
        self.explicit = None if switches is None else {int(s): t for s, t in switches}
        self.made = []                      # switches which took place
        self.trail = []                     # (from, to, place)
        self.step = 0
        self.cap = cap
        self.results = [None] * len(jobs)
        self.done = [False] * len(jobs)
        self.waiting = [None] * len(jobs)
        self.gate = [_real_lock() for _ in jobs]
        for g in self.gate:
            g.acquire()
        self.finished = _real_lock()
        self.finished.acquire()
        self.ids = {}
        self.native = {}                    # thread -> its number in the system
        self.last = None                    # the thread that ended last
        self.mine = [0] * len(jobs)         # steps of each thread
        self.cut = {}                       # thread -> (own step, exception): cut short there
        self.cuts = []                      # where that happened
        self.current = None
        self.failure = None
        self.next_switch = self._draw()

    def _draw(self):
        if self.explicit is not None:
            later = [s for s in self.explicit if s > self.step]
            return min(later) if later else None
        if self.rng.random() < self.burst:
            return self.step + self.rng.randint(1, 3)
        return self.step + 1 + int(self.rng.expovariate(1.0 / self.quantum))

    def me(self):
        return self.ids.get(threading.get_ident())

    def runnable(self):
        return [i for i in range(len(self.jobs))
                if not self.done[i] and (self.waiting[i] is None or not self.waiting[i].locked())]

    def _tracer(self, frame, event, arg):
        f = frame.f_code.co_filename
        if not (f.startswith(PREFIX) or f in RACE_FILES):
            return None
        if self.fine:
            frame.f_trace_opcodes = True
        return self._warm if self.heat and hot_lines(frame) else self._local

    def _warm(self, frame, event, arg):
        if event == self.what:
            if frame.f_lineno in hot_lines(frame):
                self.glow = 12 if self.fine else 3
            if self.glow:                   # at a hot line or just after it
                self.glow -= 1
                if self.rng.random() < self.heat:
                    self.next_switch = self.step + 1
        self._local(frame, event, arg)
        return self._warm

    def _local(self, frame, event, arg):
        if event == self.what:
            self.step += 1
            if self.step == self.next_switch:
                self._decide(frame)
            elif self.step > self.cap:
                raise StepCap('more than %d steps' % self.cap)
            me = self.current
            self.mine[me] += 1
            if me in self.cut and self.mine[me] >= self.cut[me][0] and _ours(frame.f_code):
                exc = self.cut.pop(me)[1]
                self.cuts.append([me, '%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)])
                raise exc('simulated')
        return self._local

    def cut_after(self, steps, exc):
        """The running thread is to be cut short after so many of its steps."""
        me = self.me()
        self.cut[me] = (self.mine[me] + steps, exc)

    def go_on(self):
        """The running thread leaves an interrupted call behind (which ended the tracing of it)."""
        self.cut.pop(self.me(), None)
        sys.settrace(self._tracer)

    def _decide(self, frame):
        me = self.current
        others = [i for i in self.runnable() if i != me]
        to = None
        if others:
            if self.explicit is not None:
                to = self.explicit[self.step]
                if to not in others:
                    to = None
            else:
                to = self.rng.choice(others)
        at = self.step
        self.next_switch = self._draw()
        if to is not None:
            self.made.append([at, to])
            self.trail.append((me, to, '%s:%d' % (os.path.basename(frame.f_code.co_filename),
                                                   frame.f_lineno)))
            self._hand(me, to)

    def _hand(self, me, to):
        self.current = to
        self.gate[to].release()
        self.gate[me].acquire()
        if self.failure:
            raise self.failure

    @staticmethod
    def _after(me, can):
        """Who runs when `me` cannot go on: the next one, in cyclic order."""
        return min(can, key=lambda j: (j <= me, j))

    def breathe(self):
        """The running thread is between two jobs: let others go on first."""
        self.step += 1
        if self.explicit is None or self.step in self.explicit:
            self._decide(sys._getframe())

    def nudge(self):
        """A lock has just been taken: a good moment for a switch."""
        if self.heat and self.explicit is None and self.rng.random() < self.heat:
            self.next_switch = self.step + self.rng.choice([1, 1, 2])

    def block(self, lock, soft=False):
        """The current thread waits for `lock`; False if soft and nobody else can run."""
        me = self.current
        self.waiting[me] = lock
        can = [i for i in self.runnable() if i != me]
        if not can:
            self.waiting[me] = None
            if soft:
                return False
            self.failure = Deadlock('threads wait for each other')
            raise self.failure
        self._hand(me, self._after(me, can))
        self.waiting[me] = None
        return True

    def _body(self, i):
        self.gate[i].acquire()
        self.ids[threading.get_ident()] = i
        self.native[i] = threading.get_native_id()
        try:
            if not self.failure:
                sys.settrace(self._tracer)
                try:
                    self.results[i] = self.jobs[i]()
                finally:
                    sys.settrace(None)
        except BaseException as error:
            self.results[i] = {'escaped': type(error).__name__ + ': ' + str(error)}
            if isinstance(error, (Deadlock, StepCap)):
                self.failure = error
        finally:
            self.done[i] = True
            self.last = i
            self.finished.release()

    def _bury(self, i):
        """Wait until thread i is gone with all that libraries keep per thread: they clear it up at its end, and
        nobody else is to run meanwhile."""
        while os.path.exists('/proc/self/task/%d' % self.native[i]):
            select.select([], [], [], 0.0001)

    def _next(self):
        """Thread self.last has ended: who goes on?  False if nobody is left."""
        left = [j for j in range(len(self.jobs)) if not self.done[j]]
        if not left:
            return False
        can = self.runnable() if not self.failure else left
        if not can:
            self.failure = Deadlock('threads wait for a lock nobody holds')
            to = left[0]
        else:
            to = self._after(self.last, can)
        self.current = to
        self.gate[to].release()
        return True

    def run(self):
        global _active
        _active = self
        try:
            for i in range(len(self.jobs)):
                _thread.start_new_thread(self._body, (i,))
            self.current = 0
            self.gate[0].release()
            while True:
                self.finished.acquire()
                self._bury(self.last)
                if not self._next():
                    break
        finally:
            _active = None
        return self.results

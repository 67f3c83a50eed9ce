"""Line-level control of the library's execution: step counting, crash points and thread schedules.

Everything here is driven by ``sys.monitoring`` line events of code objects that belong to the jinete package, so a
"step" is one executed line of the library, and step numbers are a function of the simulated execution only.
"""
import sys
import threading

from . import kernel

TOOL = 3
_events = sys.monitoring.events


class StepBudgetExceeded(BaseException):
    """The run executed more library lines than its budget."""


_callbacks = []


def _on_line(code, line):
    if not kernel.is_repo_code(code):
        return sys.monitoring.DISABLE
    for callback in _callbacks:
        callback(code, line)


class _Monitor:
    """Install a callback for each line of the library, in every thread."""

    def __init__(self, callback):
        self.callback = callback

    def __enter__(self):
        if not _callbacks:
            sys.monitoring.use_tool_id(TOOL, "jinete-sim")
            sys.monitoring.register_callback(TOOL, _events.LINE, _on_line)
            sys.monitoring.set_events(TOOL, _events.LINE)
            sys.monitoring.restart_events()
        _callbacks.append(self.callback)
        return self

    def __exit__(self, *exc):
        _callbacks.remove(self.callback)
        if not _callbacks:
            sys.monitoring.set_events(TOOL, 0)
            sys.monitoring.register_callback(TOOL, _events.LINE, None)
            sys.monitoring.free_tool_id(TOOL)
        return False


class Steps:
    """Count library steps; optionally raise at one of them (``crash_at``) or beyond a budget."""

    def __init__(self, crash_at=None, error=None, budget=None, hook=None):
        self.count = 0
        self.crash_at = crash_at
        self.error = error
        self.budget = budget
        self.fired = None
        self.hook = hook
        self._monitor = _Monitor(self._on_line)

    def _on_line(self, code, line):
        self.count += 1
        if self.hook is not None:
            self.hook(self.count)
        if self.count == self.crash_at:
            self.fired = f"{code.co_filename.rsplit('/', 1)[-1]}:{code.co_name}:{line}"
            raise self.error()
        if self.budget is not None and self.count > self.budget:
            self.budget = None
            raise StepBudgetExceeded(f"more than {self.count - 1} steps")

    def __enter__(self):
        self._monitor.__enter__()
        return self

    def __exit__(self, *exc):
        return self._monitor.__exit__(*exc)


CURRENT = None


class Deadlock(Exception):
    pass


class Scheduler:
    """Run several functions in threads of which exactly one executes at a time.

    ``switches`` is a list of ``(step, target)``: when the global step counter reaches ``step``, the processor is given
    to the ``target``-th (modulo) of the other unfinished threads.  A finished or blocked thread gives it to the next.
    Further ``count`` switches take place at each ``every``-th executed line of ``files`` but the first ``start`` ones,
    each with a ``chance`` decided by ``seed``.
    """

    def __init__(self, functions, switches, files=(), every=1, count=0, start=0, chance=1.0, seed=0):
        self.functions = functions
        self.chance, self.random = chance, kernel.stream("switches", seed)
        self.files, self.every, self.left, self.skip = tuple(files), every, count, start
        self.seen = 0
        self.switches = sorted((int(s), int(t)) for s, t in switches)
        self.step = 0
        self.next_switch = 0
        self.turn = 0
        self.gates = [kernel.RealLock() for _ in functions]
        for gate in self.gates:
            gate.acquire()
        self.finished = [False] * len(functions)
        self.outcomes = [None] * len(functions)
        self.trace = []
        self.blocked_in_a_row = 0
        self.steps_of = [0] * len(functions)
        self._ids = {}

    def owns_current_thread(self):
        return threading.get_ident() in self._ids

    def _others(self):
        n = len(self.functions)
        return [i for i in ((self.turn + d) % n for d in range(1, n)) if not self.finished[i]]

    def _give(self, target):
        self.trace.append((self.step, target))
        self.turn = target
        self.gates[target].release()

    def _switch(self, me, target):
        self._give(target)
        self.gates[me].acquire()

    def _on_line(self, code, line):
        me = self._ids.get(threading.get_ident())
        if me is None:
            return
        self.step += 1
        self.steps_of[me] += 1
        self.blocked_in_a_row = 0
        if self.left and code.co_filename.endswith(self.files):
            self.seen += 1
            if self.seen > self.skip and (self.seen - self.skip) % self.every == 0 and \
                    self.random.random() < self.chance:
                self.left -= 1
                others = self._others()
                if others:
                    self._switch(me, others[0])
        while self.next_switch < len(self.switches) and self.switches[self.next_switch][0] <= self.step:
            _, target = self.switches[self.next_switch]
            self.next_switch += 1
            others = self._others()
            if others:
                self._switch(me, others[target % len(others)])

    def blocked(self):
        """The running thread needs a lock held by another one."""
        me = self._ids[threading.get_ident()]
        others = self._others()
        self.blocked_in_a_row += 1
        if not others or self.blocked_in_a_row > 1000 * len(self.functions):
            raise Deadlock("every unfinished thread is waiting for a lock")
        self._switch(me, others[0])

    def _run(self, me):
        self.gates[me].acquire()
        self._ids[threading.get_ident()] = me
        kernel.set_thread_name(f"thread-{me}")
        try:
            self.outcomes[me] = ("ok", self.functions[me]())
        except BaseException as error:
            self.outcomes[me] = ("error", error)
        self._ids.pop(threading.get_ident())
        self.finished[me] = True
        others = self._others()
        if others:
            self._give(others[0])

    def run(self):
        global CURRENT
        threads = [threading.Thread(target=self._run, args=(i,), daemon=True) for i in range(len(self.functions))]
        CURRENT = self
        try:
            with _Monitor(self._on_line):
                for thread in threads:
                    thread.start()
                self._give(0)
                for thread in threads:
                    thread.join()
        finally:
            CURRENT = None
        return self.outcomes

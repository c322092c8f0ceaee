"""Deterministic scheduler: real threads, one runs at a time, and the simulator
decides who.  Preemption and fault points are bytecode instructions of the
library (sys.monitoring INSTRUCTION events on its code objects).

A run is a pure function of (operations, switches, faults, code): a switch is
``(op id, k) -> task`` (k-th library instruction executed inside that
operation; k = 0 is the boundary just before it starts), a fault is
``(op id, k) -> kind``.
"""
import errno
import io
import sys
import threading

MON = sys.monitoring
TOOL = 3
ACTIVE = None            # the Sim currently running, or None
STEP_LIMIT = 2_000_000    # library instructions per operation before it counts as hung
_registered = False
NEVER = 1 << 60


# ---- injected faults -------------------------------------------------------
class FaultInterrupt(KeyboardInterrupt):
    """Ctrl-C / signal delivered inside the library"""


class FaultMemory(MemoryError):
    """failing allocation"""


class FaultTimeout(TimeoutError):
    """a cycle-deadline handler raised inside the library"""


class FaultRecursion(RecursionError):
    """stack exhausted at a call"""


class FaultStdout(OSError):
    """write(2) on standard output failed"""


class TaskKilled(BaseException):
    """the calling thread is torn down in the middle of a call"""


class SimHang(BaseException):
    """operation ran past the step limit or can never be scheduled again"""


FAULTS = {"interrupt": FaultInterrupt, "memory": FaultMemory, "timeout": FaultTimeout,
          "recursion": FaultRecursion, "kill": TaskKilled}
INJECTED = (FaultInterrupt, FaultMemory, FaultTimeout, FaultRecursion, FaultStdout, TaskKilled)


def _on_instruction(code, offset):
    sim = ACTIVE
    if sim is None:
        return
    task = sim.cur
    if task is None:
        return
    task.k += 1
    if task.k >= task.stop:
        sim.reach(task)


def instrument(code):
    global _registered
    if not _registered:
        MON.use_tool_id(TOOL, "pyrusgeom-sim")
        MON.register_callback(TOOL, MON.events.INSTRUCTION, _on_instruction)
        _registered = True
    stack = [code]
    while stack:
        item = stack.pop()
        MON.set_local_events(TOOL, item, MON.events.INSTRUCTION)
        stack.extend(c for c in item.co_consts if hasattr(c, "co_code"))


# ---- locks seen by library code ----------------------------------------------
class SimLock:
    """what library code gets for threading.Lock inside the simulator"""
    reentrant = False

    def __init__(self):
        self.owner = None
        self.depth = 0

    def _me(self):
        return ACTIVE.cur if ACTIVE is not None else "main"

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self.reentrant and self.owner is me and self.depth:
            self.depth += 1
            return True
        spins = 0
        while self.depth:
            if not blocking or timeout >= 0:
                return False
            if ACTIVE is None:
                raise SimHang("lock is never released")
            spins += 1
            if spins > 4 * len(ACTIVE.tasks) + 8:
                raise SimHang("deadlock on a lock taken by library code")
            ACTIVE.yield_blocked()
        self.owner, self.depth = me, 1
        return True

    def release(self):
        if not self.depth:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if not self.depth:
            self.owner = None

    def locked(self):
        return bool(self.depth)

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()


class SimRLock(SimLock):
    reentrant = True


# ---- standard output ---------------------------------------------------------
class SimStdout:
    """sys.stdout during simulations: swallows text, or fails like a closed pipe"""

    def __init__(self):
        self.lines = 0
        self.fail = False
        self.failures = 0

    def write(self, text):
        if self.fail:
            self.failures += 1
            raise FaultStdout(errno.EPIPE, "Broken pipe")
        self.lines += 1
        return len(text)

    def flush(self):
        if self.fail:
            raise FaultStdout(errno.EPIPE, "Broken pipe")

    def isatty(self):
        return self.terminal

    def writelines(self, lines):
        for text in lines:
            self.write(text)

    def writable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    encoding, errors, newlines, closed, terminal = "utf-8", "strict", None, False, False


STDOUT = SimStdout()


class captured_stdout:
    def __enter__(self):
        self.saved = sys.stdout
        sys.stdout = STDOUT
        STDOUT.fail = False
        return STDOUT

    def __exit__(self, *exc):
        STDOUT.fail = False
        sys.stdout = self.saved


# ---- scheduler -----------------------------------------------------------------
class Task:
    def __init__(self, index, ops):
        self.index = index
        self.ops = ops
        self.k = 0
        self.stop = NEVER
        self.plan = []
        self.op = None
        self.done = False
        self.killed = False
        self.baton = threading.Lock()
        self.baton.acquire()


class Sim:
    """runs tasks (lists of op dicts with 'id') under a given schedule.

    do_op(sim, task, op) performs one operation and records its outcome; the
    library call inside must be wrapped in ``sim.call(op, fn)``.
    need(op) -> (reads, writes): object names, for the caller-side lock discipline.
    """

    def __init__(self, ops, ntasks, switches, faults, do_op, need=None):
        self.tasks = [Task(i, [op for op in ops if op["task"] == i]) for i in range(ntasks)]
        self.plan = {}
        for op_id, k, target in switches:
            self.plan.setdefault(op_id, []).append((k, 0, target))
        for op_id, k, kind in faults:
            self.plan.setdefault(op_id, []).append((k, 1, kind))
        for items in self.plan.values():
            items.sort(key=lambda it: (it[0], it[1], str(it[2])))
        self.do_op = do_op
        self.need = need
        self.readers = {}
        self.writers = {}
        self.cur = None
        self.total = 0
        self.main = threading.Lock()
        self.main.acquire()
        self.trace = []          # schedule actually taken
        self.order = []          # op ids in the order they started
        self.fired = {}          # fault kind -> times fired
        self.counts = {}         # op id -> library instructions executed in it
        self.preemptions = 0
        self.error = None
        self.fault_in = {}       # op id -> kind fired inside
        self.probe = None        # (op id, fn(k)): look around at every instruction of that op

    def steps(self):
        return self.total + (self.cur.k if self.cur is not None else 0)

    # -- called from the instruction hook --
    def reach(self, task):
        k = task.k
        while task.plan and task.plan[0][0] <= k:
            at, what, arg = task.plan.pop(0)
            task.stop = min(task.plan[0][0] if task.plan else NEVER, STEP_LIMIT)
            if what == 0:
                self.switch(task, arg, inside=True)
            elif arg == "stdout":
                STDOUT.fail = True
            else:
                self.fired[arg] = self.fired.get(arg, 0) + 1
                self.fault_in[task.op["id"]] = arg
                self.trace.append(("fault", task.op["id"], k, arg))
                if arg == "kill":
                    task.killed = True
                raise FAULTS[arg]("injected")
        if self.probe is not None and task.op["id"] == self.probe[0]:
            if self.probe[1](k):
                task.stop = min(task.stop, k + 1)
        if k >= STEP_LIMIT:
            task.stop = NEVER
            raise SimHang("step limit")

    def switch(self, task, target, inside=False):
        if target == task.index or target >= len(self.tasks):
            return
        other = self.tasks[target]
        if other.done:
            return
        self.trace.append(("switch", task.op["id"] if task.op else -1, task.k, target))
        if inside:
            self.preemptions += 1
        self._give(task, other)

    def _give(self, task, other):
        fail = STDOUT.fail
        STDOUT.fail = False
        self.cur = other
        other.baton.release()
        task.baton.acquire()
        STDOUT.fail = fail

    def yield_blocked(self):
        task = self.cur
        n = len(self.tasks)
        for d in range(1, n):
            other = self.tasks[(task.index + d) % n]
            if not other.done:
                self._give(task, other)
                return

    # -- caller-side reader/writer discipline --
    def _try_lock(self, op):
        reads, writes = self.need(op)
        for name in writes:
            if self.writers.get(name) or self.readers.get(name):
                return False
        for name in reads:
            if self.writers.get(name):
                return False
        for name in writes:
            self.writers[name] = 1
        for name in reads:
            self.readers[name] = self.readers.get(name, 0) + 1
        return True

    def _unlock(self, op):
        reads, writes = self.need(op)
        for name in writes:
            self.writers[name] = 0
        for name in reads:
            self.readers[name] -= 1

    # -- one library call, preemptible and interruptible --
    def call(self, task, op, fn):
        task.k = 0
        task.plan = [it for it in self.plan.get(op["id"], ()) if it[0] > 0]
        task.stop = min(task.plan[0][0] if task.plan else NEVER, STEP_LIMIT)
        for it in list(task.plan):
            if it[2] == "stdout" and it[1] == 1:
                task.plan.remove(it)
                STDOUT.fail = True
                task.stop = min(task.plan[0][0] if task.plan else NEVER, STEP_LIMIT)
        if self.probe is not None and op["id"] == self.probe[0]:
            task.stop = 1
        before = STDOUT.failures
        try:
            return fn()
        finally:
            task.stop = NEVER
            self.total += task.k
            self.counts[op["id"]] = task.k
            if STDOUT.fail:
                STDOUT.fail = False
                if STDOUT.failures != before:
                    self.fired["stdout"] = self.fired.get("stdout", 0) + 1
                    self.fault_in[op["id"]] = "stdout"
                    self.trace.append(("fault", op["id"], 0, "stdout"))
            task.k = 0

    def _body(self, task):
        task.baton.acquire()
        try:
            for op in task.ops:
                task.op = op
                task.k = 0
                for k, what, arg in self.plan.get(op["id"], ()):
                    if k == 0 and what == 0:
                        self.switch(task, arg)
                if self.need is not None:
                    while not self._try_lock(op):
                        self.yield_blocked()
                self.order.append(op["id"])
                try:
                    self.do_op(self, task, op)
                finally:
                    if self.need is not None:
                        self._unlock(op)
                if task.killed:
                    break
        except BaseException as exc:          # harness error, surfaced by run()
            if self.error is None:
                self.error = exc
        task.done = True
        for other in self.tasks:
            if not other.done:
                self.cur = other
                other.baton.release()
                return
        self.cur = None
        self.main.release()

    def run(self, first=0):
        global ACTIVE
        threads = [threading.Thread(target=self._body, args=(t,), daemon=True) for t in self.tasks]
        ACTIVE = self
        try:
            for th in threads:
                th.start()
            self.cur = self.tasks[first if first < len(self.tasks) else 0]
            self.cur.baton.release()
            self.main.acquire()
            for th in threads:
                th.join()
        finally:
            ACTIVE = None
        if self.error is not None:
            raise self.error
        return self

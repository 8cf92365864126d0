"""Controlled scheduler for real threads running the real library code.

One thread runs at a time. Every start of a source statement (mode 'stmt') or every bytecode instruction
(mode 'opcode') executed in a file of the library is a scheduling point; in the 'x' variants of the
modes also those in code generated for it (dataclass methods) and in enum.py. A plan is a list of segments (thread, steps): the thread runs for that
many points, then the next segment starts; afterwards every thread runs to its end, in order.
CPython only switches threads between bytecode instructions, so 'opcode' is as fine as it gets."""
import ast
import enum
import sys
import threading

from mc import env
from mc.core import Hang, Violation

STEP_LIMIT = 50000
BLOCKED_SECONDS = 0.3  # a thread that blocks (a lock held by a paused thread) lets the others go on
_LIB = {}


def _ours(filename, wide):
    r = _LIB.get((filename, wide))
    if r is None:
        r = filename.startswith(env.VBLF_DIR) or wide and (filename == "<string>" or filename == enum.__file__)
        _LIB[filename, wide] = r
    return r


_STMT = {}


def _statements(filename):
    """line -> first line of the innermost simple statement (or compound statement's head) it belongs to"""
    m = _STMT.get(filename)
    if m is None:
        m = {}
        try:
            with open(filename, encoding="utf-8") as f:
                tree = ast.parse(f.read())
            for node in ast.walk(tree):
                if isinstance(node, ast.stmt):
                    body = getattr(node, "body", None)
                    end = body[0].lineno - 1 if body else node.end_lineno
                    for ln in range(node.lineno, end + 1):
                        m[ln] = max(m.get(ln, 0), node.lineno)
        except (OSError, SyntaxError):
            pass
        _STMT[filename] = m
    return m


class Run:
    def __init__(self, fns, plan, mode):
        self.n = len(fns)
        self.fns = fns
        self.mode = mode
        self.plan = list(plan)
        self.steps = [0] * self.n
        self.gates = [threading.Semaphore(0) for _ in fns]
        self.back = threading.Semaphore(0)
        self.quota = [0] * self.n
        self.done = [False] * self.n
        self.result = [None] * self.n
        self.error = [None] * self.n
        self.free = False
        self.blocked = 0

    def _point(self, i):
        self.steps[i] += 1
        if self.steps[i] > STEP_LIMIT:
            raise Hang("more than %d steps in one thread" % STEP_LIMIT)
        if self.free or self.quota[i] is None:
            return
        self.quota[i] -= 1
        if self.quota[i] < 0:
            self.back.release()
            self.gates[i].acquire()

    def _body(self, i):
        self.gates[i].acquire()
        ev, wide = self.mode.rstrip("x"), self.mode.endswith("x")
        cur = {}

        def local(frame, event, arg):
            if event == "opcode":
                self._point(i)
            elif event == "line":
                st = _statements(frame.f_code.co_filename).get(frame.f_lineno, frame.f_lineno)
                if cur.get(frame) != st:
                    cur[frame] = st
                    self._point(i)
            elif event == "return":
                cur.pop(frame, None)
            return local

        def tracer(frame, event, arg):
            if event == "call" and _ours(frame.f_code.co_filename, wide):
                if ev == "opcode":
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None

        sys.settrace(tracer)
        try:
            self.result[i] = self.fns[i]()
        except BaseException as e:  # noqa: BLE001
            self.error[i] = e
        finally:
            sys.settrace(None)
            self.done[i] = True
            self.back.release()

    def _segment(self, i, steps):
        if self.done[i] or steps == 0:
            return
        self.quota[i] = steps
        self.gates[i].release()
        if not self.back.acquire(timeout=BLOCKED_SECONDS):
            self.blocked += 1
            self.free = True  # blocked on a paused thread: let everybody run
            for j in range(self.n):
                self.quota[j] = None
                if j != i:
                    self.gates[j].release()
            for t in self.threads:
                t.join(20)

    def run(self):
        """Returns the threads' results; raises what a thread raised."""
        self.threads = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
        for t in self.threads:
            t.start()
        for i, steps in self.plan + [(i, None) for i in range(self.n)]:
            if self.free:
                break
            self._segment(i, steps)
        for t in self.threads:
            t.join(20)
            if t.is_alive():
                raise Violation("a thread does not end (deadlock)")
        for i, e in enumerate(self.error):
            if e is not None:
                raise Violation("thread %d raised %s: %s" % (i, type(e).__name__, e)) from e
        return self.result

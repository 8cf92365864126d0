"""Interrupts: exceptions raised where the interpreter would deliver a signal handler's or another thread's.

CPython looks for them when a function starts, on backward jumps and after calls. `Interrupter` traces the library's
code (and the code generated for it, and enum.py) instruction by instruction, numbers these points, and raises the
planned exceptions at the planned ones."""
import dis
import enum
import sys
import types

from mc import env
from mc.core import Hang

POINT_LIMIT = 100000
_AFTER = {}


def after_calls(code):
    """Offsets of the instructions that follow a call."""
    s = _AFTER.get(code)
    if s is None:
        s, call = set(), False
        for i in dis.get_instructions(code):
            if i.opname == "CACHE":
                continue
            if call:
                s.add(i.offset)
            call = i.opname in ("CALL", "CALL_FUNCTION_EX", "SEND")
        _AFTER[code] = s
    return s


_LIB = {}


def ours(filename):
    r = _LIB.get(filename)
    if r is None:
        r = _LIB[filename] = filename.startswith(env.VBLF_DIR) or filename in ("<string>", enum.__file__)
    return r


class Interrupter:
    """plan: {number of the point: class of the exception}; counts go on over several `run`s."""

    def __init__(self, plan):
        self.plan, self.n, self.raised = plan, 0, None

    def point(self):
        k = self.n
        self.n += 1
        if k > POINT_LIMIT:
            raise Hang("more than %d points" % POINT_LIMIT)
        if k in self.plan:
            self.raised = self.plan[k]()
            raise self.raised

    def tracer(self, frame, event, arg):
        if not ours(frame.f_code.co_filename):
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        after = after_calls(frame.f_code)
        last = [-1]

        def local(frame, event, arg):
            if event == "opcode":
                at = frame.f_lasti
                back = at <= last[0]
                last[0] = at
                if back or at in after:
                    self.point()
            return local

        self.point()  # the function starts or continues
        return local

    def run(self, f, *a):
        """(result, the exception that reached the caller, the exception that was raised here and so must be that one).

        What is raised while a generator is finalised (an abandoned iteration) never has a caller: the interpreter reports it itself."""
        self.raised = None
        old = sys.gettrace()
        hook, sys.unraisablehook = sys.unraisablehook, self.unraisable
        sys.settrace(self.tracer)
        try:
            r, e = f(*a), None
        except BaseException as x:  # noqa: BLE001
            r, e = None, x
        finally:
            sys.settrace(old)
            sys.unraisablehook = hook
        return r, e, self.raised

    def unraisable(self, args):
        if args.exc_value is self.raised and isinstance(args.object, types.GeneratorType):
            self.raised = None
        else:
            sys.__unraisablehook__(args)

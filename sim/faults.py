"""Seams through which faults enter a simulated run."""
import ast
import sys
from contextlib import contextmanager

import torch as pt
from torch.overrides import TorchFunctionMode

from sim.core import FAULTS

INJECTED = tuple(FAULTS.values())
_SKIP = {"__get__", "__set__", "__delete__", "__format__", "__repr__", "__hash__", "__len__",
         "__contains__", "__reversed__", "__deepcopy__", "__reduce_ex__", "__setstate__", "__iter__"}


_EDGES = {}


def edge_lines(filename):
    """Lines at which no fault strikes, whatever the code: headers of ``with`` and
    ``try`` (the interpreter stops there between taking something and guarding it,
    and again on the way out) and ``finally`` blocks."""
    if filename not in _EDGES:
        lines = set()
        try:
            tree = ast.parse(open(filename).read())
        except (OSError, SyntaxError):
            tree = ast.Module([], [])
        for n in ast.walk(tree):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                lines.update(range(n.lineno, max(n.lineno + 1, n.body[0].lineno)))
            elif isinstance(n, ast.Try):
                lines.add(n.lineno)
                for x in n.finalbody:
                    lines.update(range(x.lineno, x.end_lineno + 1))
        _EDGES[filename] = lines
    return _EDGES[filename]


def at_edge(frame):
    """Whether a library frame from this one outwards is at such a line."""
    while frame is not None:
        f = frame.f_code.co_filename
        if "/skwdro/" in f and frame.f_lineno in edge_lines(f):
            return True
        frame = frame.f_back
    return False


def place(frac, count, spots=()):
    """The place (from 1 on) of a fault: half of the time any of the places that
    were passed, else the first or the last passage at any of the distinct spots
    of the code, so that code that runs once is reached as often as loops."""
    coin, spots = int(frac * 2 ** 20) % 4, sorted(map(list, spots))
    if coin < 2 or not spots:
        return 1 + int(frac * max(count, 1))
    return spots[int(frac * len(spots))][coin - 2]


class OpFaults(TorchFunctionMode):
    """Counts the tensor operations of the calling thread and makes the n-th one
    fail.  Operations that cannot fail for want of memory (attribute access,
    modes of torch, in-place updates), those of handlers of an error under way and
    those of clean-up code are left alone."""

    def __init__(self, at=None, kind="error", ctx=None, where=""):
        super().__init__()
        kind = "error" if kind == "type" else kind  # (operators of tensors take a TypeError as not implemented)
        self.at, self.kind, self.ctx, self.where = at, kind, ctx, where
        self.count, self.fired, self.spots = 0, None, {}

    def __torch_function__(self, func, types, args=(), kwargs=None):
        name = getattr(func, "__name__", str(func))
        if name not in _SKIP and "grad_enabled" not in name \
                and (not (name.startswith("_") or name.endswith("_")) or name.startswith("__")) \
                and sys.exc_info()[0] is None and self.fired is None:
            self.count += 1
            if self.at is None:
                f = sys._getframe(1)
                self.spots.setdefault((name, f.f_code.co_filename, f.f_lineno), [self.count, 0])[1] = self.count
            elif self.count >= self.at and not at_edge(sys._getframe(1)):
                self.fired = name
                if self.ctx is not None:
                    self.ctx.fault(f"{self.kind} in tensor operation")
                    self.ctx.event("op-fault", self.where, self.at, name)
                raise FAULTS[self.kind](f"injected in {name}")
        return func(*args, **(kwargs or {}))


class CallFaults:
    """Makes the n-th call of a user component (model, loss, sampler, closure)
    fail, or return not-a-number / infinite values."""

    def __init__(self, ctx=None):
        self.ctx = ctx
        self.count = 0
        self.at, self.kind = None, None
        self.fired = False

    def arm(self, at, kind):
        self.at = None if at is None else self.count + at
        self.kind, self.fired = kind, False

    def disarm(self):
        self.at = None

    def hit(self, where):
        """Counts a call; raises, or returns the value fault that is due."""
        self.count += 1
        if self.at is None or self.count != self.at:
            return None
        self.fired = True
        if self.ctx is not None:
            self.ctx.fault(f"{self.kind} in {where}")
        if self.kind in FAULTS:
            raise FAULTS[self.kind](f"injected in {where}")
        return self.kind


def poison(x, kind):
    """Value faults."""
    if kind is None:
        return x
    bad = {"nan": float("nan"), "inf": float("inf"), "-inf": float("-inf"), "huge": 1e30}[kind]
    return x * 0 + bad if kind == "huge" else x + bad


class FaultyModule(pt.nn.Module):
    """User's module whose calls may fail."""

    def __init__(self, inner, faults, where="model"):
        super().__init__()
        self.inner = inner
        self._f = [faults]
        self.where = where

    def forward(self, *a):
        kind = self._f[0].hit(self.where)
        return poison(self.inner(*a), kind)


class LineFaults:
    """Interrupts the calling thread at the n-th statement executed in chosen
    functions of the library (asynchronous errors, e.g. a keyboard interrupt)."""

    def __init__(self, match, at=None, kind="interrupt", ctx=None):
        self.match, self.at, self.kind, self.ctx = match, at, kind, ctx
        self.count, self.fired, self.spots = 0, None, {}

    def _global(self, frame, event, arg):
        if event == "call" and self.match(frame.f_code):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line" and self.fired is None and sys.exc_info()[0] is None:
            self.count += 1
            if self.at is None:
                self.spots.setdefault((frame.f_code.co_filename, frame.f_lineno), [self.count, 0])[1] = self.count
            elif self.count >= self.at and not at_edge(frame):
                self.fired = (frame.f_code.co_name, frame.f_lineno - frame.f_code.co_firstlineno)
                if self.ctx is not None:
                    self.ctx.fault(f"{self.kind} at a statement of {frame.f_code.co_name}")
                raise FAULTS[self.kind](f"injected at {self.fired}")
        return self._local

    def __enter__(self):
        self.before = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *exc):
        sys.settrace(self.before)


@contextmanager
def patched(owner, name, value):
    old = getattr(owner, name)
    setattr(owner, name, value)
    try:
        yield old
    finally:
        setattr(owner, name, old)


def attempt(fn):
    """('ok', value) or ('raises', type name); injected faults are told apart."""
    try:
        return "ok", fn()
    except INJECTED as e:
        return "injected", type(e).__name__
    except Exception as e:
        return "raises", type(e).__name__

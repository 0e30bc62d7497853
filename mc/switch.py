"""Real threads that take turns at chosen lines of the code under test.

A schedule is a list of (thread, place): that thread goes on until it is about to run that line for that time (None: until it
ends), then the next entry takes its turn; when the list is used up the threads still alive are run to their ends in order.
A place is (file, first line of the function, line, calling file and line, how manieth time since the thread began).  Only lines of the repository's
files are places; code elsewhere is never interrupted.
"""
import sys
import threading
import time

from . import env

PREFIX = env.REPO + "/"
PATIENCE = 3.0


def position(frame):
    """Where the frame is, and where the repository's code called it from."""
    code, back = frame.f_code, frame.f_back
    while back is not None and not back.f_code.co_filename.startswith(PREFIX):
        back = back.f_back
    caller = "" if back is None else "%s:%d" % (back.f_code.co_filename[len(PREFIX):], back.f_lineno)
    return code.co_filename[len(PREFIX):], code.co_firstlineno, frame.f_lineno, caller


class _Body:
    def __init__(self, run, index, body, stops):
        self.run, self.index, self.body = run, index, body
        self.go = threading.Semaphore(0)
        self.stops, self.passed = stops, {}
        self.functions = {(PREFIX + s[0], s[1]) for s in stops}
        self.lines = {s[2] for s in stops}
        self.done, self.error, self.result, self.calls = False, None, None, 0
        self.thread = threading.Thread(target=self.main, daemon=True)

    def main(self):
        self.go.acquire()
        if self.stops:
            sys.settrace(self.enter)
        try:
            self.result = self.body()
        except BaseException as error:
            self.error = error
        finally:
            sys.settrace(None)
            self.done = True
            self.run.turn.release()

    def enter(self, frame, event, _arg):
        self.calls += 1
        if not self.stops:
            sys.settrace(None)             # this thread is not interrupted any more
            return None
        code = frame.f_code
        return self.line if (code.co_filename, code.co_firstlineno) in self.functions else None

    def line(self, frame, event, _arg):
        if not self.stops:
            sys.settrace(None)
            return None
        if event == "line":
            if frame.f_lineno in self.lines:
                self.calls += 1
                where = position(frame)
                n = self.passed[where] = self.passed.get(where, 0) + 1
                if where + (n,) == self.stops[0]:
                    self.stops.pop(0)
                    if not self.run.free:
                        self.run.turn.release()
                        self.go.acquire()
        return self.line


class Run:
    def __init__(self, bodies, schedule):
        self.free = False
        self.turn = threading.Semaphore(0)
        stops = [[tuple(place) for who, place in schedule if who == i and place is not None]
                 for i in range(len(bodies))]
        self.bodies = [_Body(self, i, b, stops[i]) for i, b in enumerate(bodies)]
        self.turns = 0
        for b in self.bodies:
            b.thread.start()
        waiting = []
        for who, _ in list(schedule) + [(i, None) for i in range(len(bodies))]:
            b = self.bodies[who]
            if b.done or b in waiting:
                continue
            self.turns += 1
            b.go.release()
            if not self.ended(b):
                waiting.append(b)          # it waits for something the others hold: it goes on when they let go
        for b in self.bodies:
            b.thread.join(60)
            if not b.done:
                self.free = True
                for other in self.bodies:
                    other.go.release()
                raise RuntimeError("the threads wait for each other")

    def ended(self, b):
        seen = -1
        while not self.turn.acquire(timeout=PATIENCE):
            if b.calls == seen:
                return False
            seen = b.calls
        return True


def course(body, counts=lambda path: True):
    """The position of every place the body passes when it runs alone."""
    out = []

    def enter(frame, event, _arg):
        path = frame.f_code.co_filename
        return line if path.startswith(PREFIX) and counts(path) else None

    def line(frame, event, _arg):
        if event == "line":
            out.append(position(frame))
        return line
    sys.settrace(enter)
    try:
        body()
    finally:
        sys.settrace(None)
    return out


def places(steps, passes, last=True):
    """The places of these steps: each line at its first `passes` times and (or not) at its last."""
    total = {}
    for where in steps:
        total[where] = total.get(where, 0) + 1
    return [where + (n,) for where in sorted(total) for n in sorted(
        {*range(1, min(passes, total[where]) + 1), *([total[where]] if last else [])})]

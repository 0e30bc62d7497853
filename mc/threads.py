"""Controlled scheduler for real threads of the code under test.

Every line executed in the repository's files is a scheduling point.  `explore` runs the bodies under every
schedule with at most `bound` preemptions (a switch away from a thread that could have continued).
"""
import sys
import threading
import time

from . import env

PREFIX = env.REPO + "/"
BLOCKED_AFTER = 0.5


class _Thread:
    def __init__(self, run, index, body):
        self.run, self.index, self.body = run, index, body
        self.go = threading.Lock()
        self.go.acquire()
        self.done, self.error, self.result = False, None, None
        self.thread = threading.Thread(target=self.main, daemon=True)

    def main(self):
        self.go.acquire()
        if self.run.abandoned:
            return
        sys.settrace(self.trace)
        try:
            self.result = self.body()
        except BaseException as exc:
            self.error = exc
        finally:
            sys.settrace(None)
            self.done = True
            self.run.report.release()

    def trace(self, frame, event, _arg):
        if not frame.f_code.co_filename.startswith(PREFIX):
            return None
        if event == "line":
            self.pause()
        return self.trace

    def pause(self):
        if self.run.abandoned:
            sys.settrace(None)
            return
        self.run.report.release()
        self.go.acquire()


class Execution:
    """One run of the bodies under a schedule: choices[i] is the thread that runs step i (default: keep going)."""

    def __init__(self, bodies, choices):
        self.abandoned = False
        self.report = threading.Semaphore(0)
        self.threads = [_Thread(self, i, b) for i, b in enumerate(bodies)]
        self.choices, self.taken, self.enabled = choices, [], []

    def run(self, limit=20000):
        for t in self.threads:
            t.thread.start()
        current, blocked = 0, set()
        while True:
            alive = [t.index for t in self.threads if not t.done and t.index not in blocked]
            if not alive:
                if blocked and any(not t.done for t in self.threads):
                    self.stop()
                    raise RuntimeError("deadlock between threads")
                return
            step = len(self.taken)
            if step < len(self.choices) and self.choices[step] in alive:
                current = self.choices[step]
            elif current not in alive:
                current = alive[0]
            self.enabled.append(alive)
            self.taken.append(current)
            self.threads[current].go.release()
            if not self.report.acquire(timeout=BLOCKED_AFTER if len(alive) > 1 or blocked else 60):
                blocked.add(current)                # waiting for a lock held by another thread
                continue
            if blocked:
                # a blocked thread may have been released by this step
                time.sleep(0.001)
                for i in list(blocked):
                    if self.report.acquire(timeout=0.02):
                        blocked.discard(i)
            if len(self.taken) > limit:
                self.stop()
                raise RuntimeError("no end after %d steps" % limit)

    def stop(self):
        self.abandoned = True
        for t in self.threads:
            try:
                t.go.release()
            except RuntimeError:
                pass

    def outcome(self):
        for t in self.threads:
            if t.error is not None:
                raise t.error
        return [t.result for t in self.threads]


def preemptions(taken, enabled):
    return sum(1 for i in range(1, len(taken)) if taken[i] != taken[i - 1] and taken[i - 1] in enabled[i])


def successors(choices, taken, enabled, bound):
    """Schedules that deviate from this one at one later point and stay within the bound."""
    out = []
    for i in range(len(choices), len(taken)):
        for other in enabled[i]:
            if other != taken[i]:
                plan = taken[:i] + [other]
                if preemptions(plan, enabled) <= bound:
                    out.append(plan)
    return out

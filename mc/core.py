"""Exploration engine: shards of a bounded space, run by a pool of forked workers.

A check module defines
    PROPERTY, TITLE, RULE, BOUNDS (dict per tier), ASSUMPTIONS
    shards(tier)            -> list of picklable shard descriptors covering the bounded space
    run_shard(ctx, shard)   -> explores the whole shard through ctx
    replay(ctx, case)       -> re-executes one recorded case
Every execution of a case goes through ctx.case(case), which arms the watchdog and names the case that is
blamed when the code under test raises, hangs or disagrees with the reference.
"""
import importlib
import json
import os
import pickle
import random
import resource
import select
import signal
import struct
import sys
import time
import traceback
import hashlib

from . import env

HANG_SECONDS = 120
MEMORY_LIMIT = 6 << 30
MAX_VIOLATIONS = 4       # per shard
STOP_AFTER = 6           # over the whole run


class Hang(BaseException):
    pass


class Violation(Exception):
    """Raised by check code when the implementation disagrees with the reference."""

    def __init__(self, what, key=None, **detail):
        Exception.__init__(self, what)
        self.what = what
        self.key = key
        self.detail = detail


class Enough(BaseException):
    """Too many violations in this shard: stop it."""


_watched = {"cpu": 0.0, "again": 0}


def watch():
    _watched.update(cpu=time.process_time(), again=0)
    signal.alarm(HANG_SECONDS)


def _alarm(_sig, _frame):
    """On a crowded machine, a case that got only part of the time is given some more (one that waits for nothing is not)."""
    used = time.process_time() - _watched["cpu"]
    if 5 < used < 0.8 * HANG_SECONDS and _watched["again"] < 3:
        _watched["again"] += 1
        signal.alarm(HANG_SECONDS)
    else:
        raise Hang()


class Context:
    def __init__(self, prop, tier, shard):
        self.prop, self.tier, self.shard = prop, tier, shard
        self.states = 0            # distinct model states visited
        self.transitions = 0       # model transitions taken
        self.traces = 0            # model behaviours replayed on the implementation and compared
        self.counters = {}
        self.outcomes = {}
        self.samples = []
        self.violations = []
        self.current = None
        self._seen = set()

    # --- accounting -------------------------------------------------------------------------
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def outcome(self, name, n=1):
        name = str(name)
        self.outcomes[name] = self.outcomes.get(name, 0) + n

    def visit(self, key):
        """Count a state once per shard; True when new."""
        if key in self._seen:
            return False
        self._seen.add(key)
        self.states += 1
        return True

    def sample(self, value):
        if len(self.samples) < 2:
            self.samples.append(value)

    # --- execution ---------------------------------------------------------------------------
    def case(self, case, body, *args):
        """Run body(*args) as the named case."""
        self.current = case
        watch()
        try:
            return body(*args)
        except Violation as v:
            self.violation(v.what, v.key, **v.detail)
        except Hang:
            self.violation("no answer within %d s" % HANG_SECONDS, None)
            raise Enough()
        except (Enough, KeyboardInterrupt):
            raise
        except BaseException as exc:       # the code under test failed
            signal.alarm(0)
            self.violation("exception %s: %s" % (type(exc).__name__, str(exc)[:300]), None,
                           traceback=traceback.format_exc()[-3000:])
        finally:
            signal.alarm(0)

    def violation(self, what, key=None, **detail):
        self.violations.append({"property": self.prop, "what": what, "key": key or _key(self.current),
                                "case": self.current, "detail": detail, "shard": repr(self.shard)[:300]})
        if len(self.violations) >= MAX_VIOLATIONS:
            raise Enough()

    def result(self):
        return {"states": self.states, "transitions": self.transitions, "traces": self.traces,
                "counters": self.counters, "outcomes": self.outcomes, "samples": self.samples,
                "violations": self.violations}


def _key(case):
    text = json.dumps(case, sort_keys=True, default=repr)
    return text if len(text) <= 200 else hashlib.sha256(text.encode()).hexdigest()[:32]


def run_one(module, tier, shard):
    ctx = Context(module.PROPERTY, tier, shard)
    old = signal.signal(signal.SIGALRM, _alarm)
    start = time.time()
    try:
        module.run_shard(ctx, shard)
    except Enough:
        pass
    except Violation as v:
        try:
            ctx.violation(v.what, v.key, **v.detail)
        except Enough:
            pass
    except Exception as exc:
        # an input could not even be built: blame the code under test only when it raised
        frames = traceback.extract_tb(exc.__traceback__)
        if not any(os.path.realpath(f.filename).startswith(env.REPO + os.sep) for f in frames):
            raise
        try:
            ctx.violation("exception %s: %s" % (type(exc).__name__, str(exc)[:300]), None,
                          traceback=traceback.format_exc()[-3000:])
        except Enough:
            pass
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    res = ctx.result()
    res["seconds"] = time.time() - start
    if os.environ.get("MC_PROFILE"):
        label = "sec " + repr(tuple(shard)[:5] if isinstance(shard, tuple) else shard)[:120]
        res["counters"][label] = res["counters"].get(label, 0) + res["seconds"]
    return res


def _worker(module, tier, shards, task_fd, out_fd):
    """Read shard numbers from task_fd, write (number, result) to out_fd."""
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(3000)
    with os.fdopen(task_fd, "rb", 0) as tasks, os.fdopen(out_fd, "wb", 0) as out:
        while True:
            head = tasks.read(4)
            if len(head) < 4:
                break
            number = struct.unpack(">I", head)[0]
            try:
                payload = run_one(module, tier, shards[number])
            except BaseException:
                payload = {"error": traceback.format_exc()}
            blob = pickle.dumps((number, payload))
            data = struct.pack(">I", len(blob)) + blob
            while data:
                data = data[out.write(data):]
    os._exit(0)


class Worker:
    def __init__(self, module, tier, shards, others):
        task_r, self.task_w = os.pipe()
        self.out_r, out_w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.task_w)
                os.close(self.out_r)
                for other in others:
                    os.close(other.task_w)
                    os.close(other.out_r)
                _worker(module, tier, shards, task_r, out_w)
            finally:
                os._exit(3)
        os.close(task_r)
        os.close(out_w)
        self.buffer = b""
        self.shard = None

    def give(self, number):
        self.shard = number
        os.write(self.task_w, struct.pack(">I", number))

    def receive(self):
        """Returns a payload, None when incomplete; raises EOFError when the worker is gone."""
        data = os.read(self.out_r, 1 << 20)
        if not data:
            raise EOFError
        self.buffer += data
        if len(self.buffer) < 4:
            return None
        size = struct.unpack(">I", self.buffer[:4])[0]
        if len(self.buffer) < 4 + size:
            return None
        blob, self.buffer = self.buffer[4:4 + size], self.buffer[4 + size:]
        self.shard = None
        return pickle.loads(blob)

    def close(self, kill=False):
        if kill:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
        for fd in (self.task_w, self.out_r):
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass


def merge(total, part):
    for name in ("states", "transitions", "traces"):
        total[name] += part[name]
    for name in ("counters", "outcomes"):
        for k, v in part[name].items():
            total[name][k] = total[name].get(k, 0) + v
    total["samples"].extend(part["samples"][:2])
    total["violations"].extend(part["violations"])


def explore(module, tier, seed, workers, budget):
    start = time.time()
    shards = list(module.shards(tier))
    order = list(range(len(shards)))
    random.Random(seed).shuffle(order)
    if hasattr(module, "weight"):           # heavy shards first, seed only breaks ties
        order.sort(key=lambda i: -module.weight(shards[i]))
    total = {"states": 0, "transitions": 0, "traces": 0, "counters": {}, "outcomes": {}, "samples": [],
             "violations": []}
    done, complete, retried = 0, True, set()
    pool = []
    for _ in range(max(1, min(workers, len(shards)))):
        pool.append(Worker(module, tier, shards, pool))
    pending = order[::-1]
    slowest = 0.0
    for w in pool:
        if pending:
            w.give(pending.pop())
    try:
        while any(w.shard is not None for w in pool):
            if time.time() - start > budget:
                complete = False
                break
            ready, _, _ = select.select([w.out_r for w in pool if w.shard is not None], [], [], 1.0)
            for w in list(pool):
                if w.out_r not in ready:
                    continue
                try:
                    message = w.receive()
                except EOFError:
                    lost = w.shard
                    w.close(kill=True)
                    pool.remove(w)
                    if lost in retried:
                        total["violations"].append({
                            "property": module.PROPERTY, "what": "the interpreter died twice in this shard",
                            "key": "crash:%r" % (shards[lost],), "case": None, "detail": {},
                            "shard": repr(shards[lost])[:300]})
                    else:
                        retried.add(lost)
                        pending.append(lost)
                    fresh = Worker(module, tier, shards, pool)
                    pool.append(fresh)
                    if pending:
                        fresh.give(pending.pop())
                    continue
                if message is None:
                    continue
                number, payload = message
                if "error" in payload:
                    raise RuntimeError("check machinery failed in shard %r\n%s" % (shards[number], payload["error"]))
                merge(total, payload)
                slowest = max(slowest, payload["seconds"])
                done += 1
                if len(total["violations"]) >= STOP_AFTER:
                    complete = False
                    pending = []
                    raise StopIteration
                if pending:
                    w.give(pending.pop())
    except StopIteration:
        pass
    finally:
        for w in pool:
            w.close(kill=w.shard is not None)
    total["shards"] = len(shards)
    total["shards_done"] = done
    total["complete"] = complete and done == len(shards)
    total["slowest_shard_s"] = round(slowest, 2)
    total["wall_s"] = round(time.time() - start, 2)
    return total


def load(prop):
    return importlib.import_module("mc.checks.%s" % prop.lower())


def known_findings(home):
    path = os.path.join(home, "known-findings.txt")
    known = {}
    if os.path.exists(path):
        with open(path, encoding="utf-8") as src:
            for line in src:
                line = line.strip()
                if line.startswith("known: "):
                    fields = line[len("known: "):].split(" | ")
                    known[(fields[0].split("=", 1)[1], fields[1].split("=", 1)[1])] = fields[2]
    return known

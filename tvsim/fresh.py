"""Executions in a process that has not run anything yet.

A judge compares a run with its twin (undisturbed, alone, split differently, without loads).  If both
ran in one process, whatever the first one left in modules or classes would reach the second one as
well and stay unnoticed.  Therefore a helper process is forked before a judge executes anything; it
never runs the code under test itself, but forks one worker per requested twin.
"""

import os
import pickle
import signal
import struct
import sys
import traceback
from types import SimpleNamespace

HELPER = None


def portable_trace(t):
    """What judges and statistics need of a trace, without live objects."""
    for r in t.ops:
        r.figs = r.vids = None
        if r.op["op"] not in ("query", "maxtemp"):
            r.value = None
    sims = [SimpleNamespace(
        index=s.index, cfg=s.cfg, reg=s.reg, records=s.records, calls=s.calls, snaps=s.snaps,
        ops=s.ops, obj=None if s.obj is None else True) for s in t.sims]
    world = SimpleNamespace(log=t.world.log, fired=t.world.fired)
    return SimpleNamespace(scenario=t.scenario, sims=sims, ops=t.ops, world=world,
                           decisions=getattr(t, "decisions", ()), scratch=t.scratch)


def _read(fd, n):
    out = b""
    while len(out) < n:
        d = os.read(fd, n - len(out))
        if not d:
            return None
        out += d
    return out


def _receive(fd):
    head = _read(fd, 8)
    if head is None:
        return None
    return _read(fd, struct.unpack("<Q", head)[0])


def _send(fd, data):
    data = struct.pack("<Q", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _work(request, fd, cpu_limit):
    import time
    from . import driver, world

    def stuck(*_):
        raise world.HarnessLimit(f"an operation did not end within {cpu_limit:.0f} s of processor time")

    signal.signal(signal.SIGVTALRM, stuck)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu_limit, 5.0)
    scenario, budget = pickle.loads(request)
    try:
        out = ("trace", portable_trace(driver.execute(scenario, budget)), time.process_time())
    except (world.HarnessLimit, world.ModelMismatch, world.Unreadable) as e:
        out = (type(e).__name__, str(e), time.process_time())
    except BaseException:  # noqa: BLE001
        out = ("error", traceback.format_exc()[-4000:], time.process_time())
    signal.setitimer(signal.ITIMER_VIRTUAL, 0.0)
    _send(fd, pickle.dumps(out))


class Helper:
    def __init__(self, cpu_limit):
        self.cpu = 0.0
        up_r, up_w = os.pipe()
        down_r, down_w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(up_w)
                os.close(down_r)
                while True:
                    req = _receive(up_r)
                    if req is None:
                        break
                    pid = os.fork()
                    if pid == 0:
                        code = 1
                        try:
                            os.close(up_r)
                            _work(req, down_w, cpu_limit)
                            code = 0
                        finally:
                            os._exit(code)
                    _, status = os.waitpid(pid, 0)
                    if status:
                        _send(down_w, pickle.dumps(("error", f"worker ended with {status}", 0.0)))
            finally:
                os._exit(0)
        os.close(up_r)
        os.close(down_w)
        self.w, self.r = up_w, down_r

    def execute(self, scenario, budget):
        from . import world
        _send(self.w, pickle.dumps((scenario, budget)))
        data = _receive(self.r)
        if data is None:
            raise RuntimeError("helper process died")
        kind, value, cpu = pickle.loads(data)
        self.cpu += cpu
        if kind == "trace":
            return value
        if kind == "error":
            raise RuntimeError("fresh execution failed: " + value)
        raise getattr(world, kind)(value)

    def close(self):
        os.close(self.w)
        os.close(self.r)
        os.waitpid(self.pid, 0)


def start(cpu_limit):
    global HELPER
    HELPER = Helper(cpu_limit)


def stop():
    global HELPER
    cpu = 0.0
    if HELPER is not None:
        cpu = HELPER.cpu
        HELPER.close()
        HELPER = None
    return cpu

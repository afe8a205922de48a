"""Boots the real cocotb + cocotbext.axi on the simulated GPI and runs scenarios.

A scenario is a JSON object; `execute` is a pure function of (scenario, code).
"""
import logging
import os
import random
import sys
import traceback
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")

from . import gpi  # noqa: E402

gpi.install_module()
warnings.simplefilter("ignore")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

import cocotb  # noqa: E402
import cocotb.handle  # noqa: E402
import cocotb.triggers  # noqa: E402
from cocotb.scheduler import Scheduler  # noqa: E402
from cocotb.task import Task  # noqa: E402
from cocotb.triggers import _EdgeBase, Event, RisingEdge, Timer, ReadOnly  # noqa: E402,F401
import cocotb.result  # noqa: E402,F401

# the library under test is always compiled from its current source, never from a cached .pyc
sys.pycache_prefix = "/nonexistent-verif-pycache"
import cocotbext.axi  # noqa: E402

if not os.path.abspath(cocotbext.axi.__file__).startswith(os.path.abspath(REPO) + os.sep):
    raise RuntimeError("cocotbext.axi imported from %s" % cocotbext.axi.__file__)

logging.getLogger("cocotb").setLevel(logging.CRITICAL + 10)
logging.getLogger("cocotb").propagate = False
logging.raiseExceptions = True


class _FormattingSink(logging.Handler):
    """Formats every record (so bad format strings surface) and drops it."""

    def emit(self, record):
        record.getMessage()

    def handle(self, record):
        self.emit(record)


_sink = _FormattingSink()
logging.getLogger("cocotb").addHandler(_sink)


class HarnessError(Exception):
    pass


class PermDict(dict):
    """trigger -> waiting coroutines; resumption order of same-edge waiters is seeded."""

    rng = None
    count = 0

    def pop(self, key, *default):
        lst = dict.pop(self, key, *default)
        if self.rng is not None and len(lst) > 1 and isinstance(key, _EdgeBase):
            self.rng.shuffle(lst)
            self.count += 1
        return lst


class DstScheduler(Scheduler):
    def __init__(self, sim, rng):
        super().__init__(handle_result=lambda t: None)
        self._trigger2coros = PermDict()
        self._trigger2coros.rng = rng
        self._dst_sim = sim

    def _check_termination(self):
        if self._terminate:
            self._dst_sim.done = True
            self._dst_sim.stop_reason = "main-done"


class Violation:
    __slots__ = ("kind", "props", "msg", "cycle", "time")

    def __init__(self, kind, props, msg, cycle, time):
        self.kind = kind
        self.props = props
        self.msg = msg
        self.cycle = cycle
        self.time = time

    def to_json(self):
        return {"kind": self.kind, "properties": list(self.props), "message": self.msg,
                "cycle": self.cycle, "time_ps": self.time}


PAUSE_STATS = ("fault.pause_toggle", "fault.pause_generator_replaced", "fault.limit_change", "fault.stall", "cover.send_blocked")


class Ctx:
    """State of one simulated execution."""

    def __init__(self, scn, prop):
        self.scn = scn
        self.prop = prop
        self.seed = scn["seed"]
        sched = scn.get("sched", "fifo")
        self.sched_rng = self.rng("sched") if sched == "random" else None
        self.sim = gpi.Sim(shuffle=self.rng("cbs") if sched == "random" else None)
        gpi.set_sim(self.sim)
        self.top_hdl = gpi.Module(self.sim, "top")
        self.cycle = 0
        self.violations = []
        self.other = []
        self.stats = {}
        self.states = set()
        self.max_cycles = scn.get("max_cycles", 20000)
        self.timeout_fn = None      # called when max_cycles is hit; reports what is stuck
        self.timed_out = False
        self.period = scn.get("clk", {}).get("period", 1000)
        self.clk = self.top_hdl.add("clk", 1, 0)
        self._at = {}
        self.probes = []            # receivers that raise ready only after valid
        self.gates = {}
        self.finish_fn = None
        self.last_progress = 0
        self.misdeed = None         # a protocol violation by a native component, which the library must report

    # --- randomness ---------------------------------------------------
    def rng(self, site):
        return random.Random("%s:%s" % (self.seed, site))

    # --- reporting -------------------------------------------------------
    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def fail(self, kind, props, msg):
        """Record a violation of the listed properties ('*' = whichever is being checked)."""
        props = list(props)
        # a failure after a reset (or under pausing/limits) also breaks the property that promises
        # that resets (pausing, limits) have no such effect
        if "C11" not in props and self.stats.get("fault.reset_assert"):
            props.append("C11")
        if ("C04" in props or "C21" in props) and "C14" not in props and any(k in self.stats for k in PAUSE_STATS):
            props.append("C14")
        v = Violation(kind, props, msg, self.cycle, self.sim.time)
        if self.prop is None or "*" in props or self.prop in props:
            if len(self.violations) < 20:
                self.violations.append(v)
            self.sim.done = True
            self.sim.stop_reason = "violation"
        elif len(self.other) < 20:
            self.other.append(v)

    # --- hardware ----------------------------------------------------------
    def sig(self, name, width, init="x"):
        return self.top_hdl.add(name, width, init)

    def handle(self):
        return cocotb.handle.SimHandle(self.top_hdl)

    def at_cycle(self, n, fn):
        self._at.setdefault(n, []).append(fn)

    def start_clock(self):
        clk = self.clk
        cfg = self.scn.get("clk", {})
        period = self.period
        jitter = cfg.get("jitter", 0)
        rng = self.rng("clk") if jitter else None
        for g in cfg.get("gates", []):
            self.gates[g["at"]] = g["len"]
        sim = self.sim

        def rise():
            self.cycle += 1
            if self.cycle > self.max_cycles and self.probes:
                for p in self.probes:
                    p.release()
                self.probes = []
                self.max_cycles += 40
            elif self.cycle > self.max_cycles:
                self.timed_out = True
                sim.done = True
                sim.stop_reason = "cycles"
                return
            clk.put(1)
            fns = self._at.pop(self.cycle, None)
            if fns:
                for fn in fns:
                    fn()
            p = period
            if rng is not None:
                p += rng.randint(-jitter, jitter)
            hi = p // 2
            g = self.gates.get(self.cycle)
            if g:
                self.count("fault.clock_gated")
                p += g * period
            sim.after(hi, fall)
            sim.after(p, rise)

        def fall():
            clk.put(0)

        sim.at(period, rise)

    # --- cocotb-side helpers ---------------------------------------------------
    async def cycles(self, n):
        e = RisingEdge(self.hclk)
        for _ in range(n):
            await e

    async def delay(self, op):
        d = op.get("d", 0)
        if d:
            await self.cycles(d)
        ph = op.get("ph", 0)
        if ph == "edge":
            await Timer(self.period, "step")
        elif ph:
            await Timer(ph, "step")


_SINGLE = (Scheduler._next_time_step, Scheduler._read_write, Scheduler._read_only, Scheduler._timer1)


def _reset_cocotb(sim, rng):
    cocotb.handle._handle2obj.clear()
    for t in _SINGLE:
        t.cbhdl = None
        t.primed = False
    cocotb.scheduler = DstScheduler(sim, rng)


class Result:
    __slots__ = ("violations", "other", "hash", "stats", "states", "cycles", "time", "ncb", "reason",
                 "nchanges", "tb", "sigh")


def _crash_msg(exc):
    frames = traceback.extract_tb(exc.__traceback__)
    loc = [f for f in frames if f.filename.startswith(REPO)]
    where = ""
    if loc:
        f = loc[-1]
        where = " at %s:%s in %s" % (os.path.relpath(f.filename, REPO), f.lineno, f.name)
    elif frames:
        f = frames[-1]
        where = " at %s:%s in %s" % (f.filename, f.lineno, f.name)
    return "%s: %s%s" % (type(exc).__name__, str(exc)[:300], where)


def _reported(ctx, exc):
    """The library raised exc because of the protocol violation that had been injected."""
    if ctx.misdeed is None or not ctx.misdeed.seen or not isinstance(exc, Exception):
        return False
    if not any(f.filename.startswith(REPO) for f in traceback.extract_tb(exc.__traceback__)):
        return False
    ctx.count("fault.peer_violation_reported")
    ctx.misdeed.reported = True
    return True


def execute(scn, family, prop=None, quiet=True):
    ctx = Ctx(scn, prop)
    _reset_cocotb(ctx.sim, ctx.sched_rng)
    lg = logging.getLogger("cocotb")
    level = {"debug": logging.DEBUG, "info": logging.INFO}.get(scn.get("log"), logging.CRITICAL + 10)
    if lg.level != level:
        lg.setLevel(level)
        for n, l in logging.Logger.manager.loggerDict.items():
            if n.startswith("cocotb.") and isinstance(l, logging.Logger) and l._cache:
                l._cache.clear()
    logging.getLogger("cocotb.scheduler").setLevel(logging.CRITICAL + 10)
    r = Result()
    r.tb = None
    sim = ctx.sim
    top = ctx.handle()
    cocotb.top = top
    ctx.top = top
    main_task = None
    try:
        try:
            ctx.hclk = getattr(top, "clk")
            main = family.build(ctx)
            main_task = Task(main)
            cocotb.scheduler._add_test(main_task)
            ctx.start_clock()
            sim.run()
            exc = None
            if main_task._outcome is not None:
                try:
                    main_task._outcome.get()
                except (HarnessError, HangAlarm):
                    raise
                except BaseException as e:
                    exc = e
            if exc is not None and _reported(ctx, exc):
                exc = None
            if exc is not None and not ctx.violations:
                r.tb = "".join(traceback.format_exception(exc))
                ctx.fail("crash", ["*"], _crash_msg(exc))
            elif ctx.timed_out and not ctx.violations:
                if ctx.timeout_fn is not None:
                    ctx.timeout_fn()
                if not ctx.violations:
                    ctx.fail("stuck", ["*"], "simulation did not finish within %d cycles" % ctx.max_cycles)
            elif sim.stop_reason == "main-done" and not ctx.violations and ctx.finish_fn is not None:
                ctx.finish_fn()
            elif sim.stop_reason == "no-events":
                ctx.fail("stuck", ["*"], "no events left")
        except gpi.SimLivelock as e:
            ctx.fail("livelock", ["*"], str(e))
        except (HarnessError, KeyboardInterrupt, HangAlarm):
            raise
        except Exception as e:
            r.tb = traceback.format_exc()
            if not _reported(ctx, e):
                ctx.fail("crash", ["*"], _crash_msg(e))
    finally:
        sim.done = True
        nperm = getattr(cocotb.scheduler._trigger2coros, "count", 0)
        _dispose()
    r.violations = ctx.violations
    r.other = ctx.other
    r.hash = "%016x" % (hash((sim.h, sim.time, ctx.cycle, sim.ncb)) & (2**64 - 1))
    r.sigh = "%016x" % (sim.h & (2**64 - 1))
    r.stats = ctx.stats
    if sim.nshuffled:
        ctx.count("sched.callback_batches_permuted", sim.nshuffled)
    if nperm:
        ctx.count("sched.coroutine_batches_permuted", nperm)
    r.states = ctx.states
    r.cycles = ctx.cycle
    r.time = sim.time
    r.ncb = sim.ncb
    r.reason = sim.stop_reason
    r.nchanges = sim.nchanges
    return r


class HangAlarm(BaseException):
    pass


def _dispose():
    """Drop every coroutine of the finished run without running more of the simulation."""
    s = cocotb.scheduler
    tasks = []
    for lst in list(s._trigger2coros.values()):
        tasks.extend(lst)
    tasks.extend(s._pending_coros)
    tasks.extend(s._scheduling)
    for t in tasks:
        try:
            t._coro.close()
        except BaseException:
            pass
    s._trigger2coros = PermDict()

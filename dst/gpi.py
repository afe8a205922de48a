"""A deterministic stand-in for the HDL simulator behind cocotb's GPI.

This module implements the `cocotb.simulator` extension module in pure Python:
simulated time, signals, value-change/timed/read-write/read-only callbacks and a
design hierarchy.  Everything above it (cocotb's own scheduler, triggers, handles
and queues, cocotb_bus and the library under test) is the real code.

The simulator decides every source of nondeterminism: when clocks tick, in which
order simultaneous simulator callbacks are delivered and in which order coroutines
that wait on the same edge are resumed (see kernel.PermDict).
"""
import heapq
import sys
import types
from collections import deque

RISE, FALL, ANY = 1, 2, 3


class SimLivelock(Exception):
    pass


class CbHandle:
    __slots__ = ("fn", "arg", "live", "sig", "edge")

    def __init__(self, fn, arg, sig=None, edge=0):
        self.fn = fn
        self.arg = arg
        self.live = True
        self.sig = sig
        self.edge = edge

    def deregister(self):
        if self.live:
            self.live = False
            if self.sig is not None:
                try:
                    self.sig.cbs.remove(self)
                except ValueError:
                    pass


class HdlObject:
    __slots__ = ("name", "sim")

    def get_name_string(self):
        return self.name

    def get_definition_name(self):
        return ""

    def get_definition_file(self):
        return ""

    def get_const(self):
        return False


class Sig(HdlObject):
    """A packed logic vector with 0/1/x/z bits."""
    __slots__ = ("width", "bits", "ival", "cbs", "natives", "sid", "fmt", "mask", "xm", "writers")

    def __init__(self, sim, name, width, init="x"):
        self.sim = sim
        self.name = name
        self.width = width
        self.mask = (1 << width) - 1
        self.fmt = "0%db" % width
        self.cbs = []
        self.natives = []      # (edge, fn) simulated hardware: samples at the event itself, drives with nba()
        self.sid = sim.next_sid()
        if init == "x":
            self.bits = "x" * width
            self.ival = None
        else:
            self.ival = init & self.mask
            self.bits = format(self.ival, self.fmt)

    # --- GPI surface -------------------------------------------------
    def get_type(self):
        return simulator.REG

    def get_type_string(self):
        return "GPI_REGISTER"

    def get_range(self):
        return (self.width - 1, 0)

    def get_num_elems(self):
        return self.width

    def get_signal_val_binstr(self):
        return self.bits

    def get_signal_val_long(self):
        return self.ival if self.ival is not None else 0

    def set_signal_val_int(self, action, value):
        value &= self.mask
        if value != self.ival:
            self._change(format(value, self.fmt), value)

    def set_signal_val_binstr(self, action, value):
        value = value.lower()
        if len(value) != self.width:
            raise ValueError("bad width")
        if value != self.bits:
            if "x" in value or "z" in value or "u" in value or "w" in value or "-" in value:
                self._change(value, None)
            else:
                self._change(value, int(value, 2))

    # --- native side --------------------------------------------------
    def put(self, value):
        """Immediate deposit by the simulated hardware."""
        if value is None:
            if self.bits != "x" * self.width:
                self._change("x" * self.width, None)
        elif isinstance(value, str):
            self.set_signal_val_binstr(0, value)
        else:
            self.set_signal_val_int(0, value)

    def nba(self, value):
        """Non-blocking assignment by the simulated hardware."""
        self.sim.nbas.append((self, value))

    def on(self, edge, fn):
        self.natives.append((edge, fn))

    def _change(self, bits, ival):
        old = self.bits
        self.bits = bits
        self.ival = ival
        sim = self.sim
        sim.nchanges += 1
        sim.h = hash((sim.h, self.sid, sim.time, ival if ival is not None else -1 - bits.count("x")))
        if self.cbs or self.natives:
            last = bits[-1]
            chg_last = last != old[-1]
            q = sim.active
            for cb in self.cbs:
                e = cb.edge
                if e == ANY or (chg_last and ((e == RISE and last == "1") or (e == FALL and last == "0"))):
                    q.append(cb)
            for e, fn in self.natives:
                if e == ANY or (chg_last and ((e == RISE and last == "1") or (e == FALL and last == "0"))):
                    fn()


class Module(HdlObject):
    __slots__ = ("kids",)

    def __init__(self, sim, name):
        self.sim = sim
        self.name = name
        self.kids = {}

    def get_type(self):
        return simulator.MODULE

    def get_type_string(self):
        return "GPI_MODULE"

    def get_handle_by_name(self, name):
        return self.kids.get(name)

    def get_handle_by_index(self, i):
        return None

    def get_range(self):
        return None

    def get_num_elems(self):
        return 1

    def iterate(self, what):
        return iter(list(self.kids.values()))

    def add(self, name, width, init="x"):
        s = Sig(self.sim, name, width, init)
        self.kids[name] = s
        return s


class Sim:
    """Discrete event simulator: one instance per simulated execution."""

    MAX_DELTAS = 400

    def __init__(self, shuffle=None):
        self.time = 0
        self.seq = 0
        self.timed = []
        self.active = deque()
        self.nbas = []
        self.rw = []
        self.ro = []
        self.nexts = []
        self.h = 0
        self.nchanges = 0
        self._sid = 0
        self.done = False
        self.shuffle = shuffle         # None or a random.Random deciding simultaneous delivery
        self.nshuffled = 0
        self.stop_reason = None
        self.settle_hooks = []         # called when a time step has settled
        self.ncb = 0
        self.phase = "idle"

    def next_sid(self):
        self._sid += 1
        return self._sid

    # --- native scheduling ---------------------------------------------
    def at(self, t, fn):
        self.seq += 1
        heapq.heappush(self.timed, (t, self.seq, fn, None))

    def after(self, dt, fn):
        self.at(self.time + dt, fn)

    # --- GPI registration ------------------------------------------------
    def reg_timed(self, steps, fn, arg):
        cb = CbHandle(fn, arg)
        self.seq += 1
        heapq.heappush(self.timed, (self.time + steps, self.seq, None, cb))
        return cb

    def _call(self, item):
        if item.__class__ is CbHandle:
            if item.live:
                self.ncb += 1
                item.fn(item.arg)
        else:
            item()

    def _deliver(self):
        """Value-change callbacks, until there are no more."""
        active = self.active
        while active:
            batch = list(active)
            active.clear()
            if self.shuffle is not None and len(batch) > 1:
                self.shuffle.shuffle(batch)
                self.nshuffled += 1
            for it in batch:
                self._call(it)
                if self.done:
                    return

    def _settle(self):
        deltas = 0
        active = self.active
        while not self.done:
            if active:
                self._deliver()
            elif self.nbas or self.rw:
                deltas += 1
                if deltas > self.MAX_DELTAS:
                    raise SimLivelock("more than %d delta cycles at time %d" % (self.MAX_DELTAS, self.time))
                nb, self.nbas = self.nbas, []
                for sig, val in nb:
                    sig.put(val)
                rw, self.rw = self.rw, []
                for cb in rw:
                    if self.done:
                        return
                    self._call(cb)
            else:
                break
        if self.done:
            return
        ro, self.ro = self.ro, []
        for cb in ro:
            self._call(cb)
            if self.done:
                return
        for fn in self.settle_hooks:
            fn()

    def run(self, until=None):
        timed = self.timed
        self._settle()
        while not self.done and timed:
            t = timed[0][0]
            if until is not None and t > until:
                self.stop_reason = "time"
                return
            self.time = t
            if self.nexts:
                nx, self.nexts = self.nexts, []
                for cb in nx:
                    self._call(cb)
                    if self.done:
                        return
            batch = []
            while timed and timed[0][0] == t:
                _, _, fn, cb = heapq.heappop(timed)
                batch.append(cb if fn is None else fn)
            if self.shuffle is not None and len(batch) > 1:
                self.shuffle.shuffle(batch)
            for it in batch:
                self._call(it)
                if self.active:
                    self._deliver()
                if self.done:
                    return
            self._settle()
        if not self.done and self.stop_reason is None:
            self.stop_reason = "no-events"


# --- the cocotb.simulator module -------------------------------------------
simulator = types.ModuleType("cocotb.simulator")
_cur = None


def set_sim(sim):
    global _cur
    _cur = sim


def _install():
    s = simulator
    for i, n in enumerate(["UNKNOWN", "MEMORY", "MODULE", "NET", "PARAMETER", "REG", "NETARRAY", "ENUM",
                           "STRUCTURE", "REAL", "INTEGER", "STRING", "GENARRAY"]):
        setattr(s, n, i)
    s.OBJECTS, s.DRIVERS, s.LOADS = 1, 2, 3

    s.register_timed_callback = lambda steps, cb, arg: _cur.reg_timed(steps, cb, arg)

    def vc(handle, cb, edge, arg):
        h = CbHandle(cb, arg, handle, edge)
        handle.cbs.append(h)
        return h
    s.register_value_change_callback = vc

    def ro(cb, arg):
        h = CbHandle(cb, arg)
        _cur.ro.append(h)
        return h
    s.register_readonly_callback = ro

    def rw(cb, arg):
        h = CbHandle(cb, arg)
        _cur.rw.append(h)
        return h
    s.register_rwsynch_callback = rw

    def nx(cb, arg):
        h = CbHandle(cb, arg)
        _cur.nexts.append(h)
        return h
    s.register_nextstep_callback = nx
    s.get_sim_time = lambda: (_cur.time >> 32, _cur.time & 0xffffffff) if _cur is not None else (0, 0)
    s.get_precision = lambda: -12
    s.log_level = lambda lvl: None
    s.get_root_handle = lambda name: None
    s.stop_simulator = lambda: None
    s.is_running = lambda: True
    s.get_simulator_product = lambda: "verif-dst"
    s.get_simulator_version = lambda: "1"


_install()


def install_module():
    if "cocotb" in sys.modules and not getattr(sys.modules.get("cocotb.simulator"), "_verif", False):
        raise RuntimeError("cocotb imported before the simulated GPI")
    simulator._verif = True
    sys.modules["cocotb.simulator"] = simulator

"""Reference memories and recording targets."""
from cocotb.triggers import Timer

from .hw import init_byte

INF = 1 << 80


class W:
    """One write to one byte; it takes effect at one moment in [start, end] (or, if 'maybe', never)."""
    __slots__ = ("start", "end", "val", "maybe", "port", "seq")

    def __init__(self, start, val, port, seq):
        self.start = start
        self.end = INF
        self.val = val
        self.maybe = False
        self.port = port
        self.seq = seq


class ByteHist:
    """Reference byte array: every byte is an atomic register.

    Writes through one port take effect in port order; writes through different ports are ordered
    only when one ended before the other started.  A read in [rs, re] may return the value of any
    write that could have been the latest one at some moment in that window."""

    def __init__(self, init=None):
        self.zero = init is None
        self.init = init or (lambda a: 0)
        self.h = {}
        self.pages = {}
        self.seq = 0

    def write(self, addr, val, start, port=0):
        self.seq += 1
        w = W(start, val, port, self.seq)
        lst = self.h.get(addr)
        if lst is None:
            lst = self.h[addr] = []
            self.pages.setdefault(addr >> 12, []).append(addr)
        lst.append(w)
        return w

    @staticmethod
    def _dead(w, lst, rs):
        """w was certainly overwritten before rs."""
        for x in lst:
            if x is not w and not x.maybe and x.end < rs and \
                    ((x.port == w.port and x.seq > w.seq) or x.start > w.end):
                return True
        return False

    def candidates(self, addr, rs, re):
        lst = self.h.get(addr)
        if not lst:
            return [self.init(addr)]
        out = [w.val for w in lst if w.start <= re and not self._dead(w, lst, rs)]
        if not any(not x.maybe and x.end < rs for x in lst):
            out.append(self.init(addr))
        return out

    def ok(self, addr, val, rs, re):
        lst = self.h.get(addr)
        if not lst:
            return self.init(addr) == val
        if len(lst) > 24:
            self._prune(addr, lst, rs)
        return val in self.candidates(addr, rs, re)

    def _prune(self, addr, lst, rs):
        lo = rs - 10**9
        if lo <= 0:
            return
        self.h[addr] = [w for w in lst if w.end >= lo or not self._dead(w, lst, lo)]

    def init_page(self, base, n):
        if self.zero:
            return bytes(n)
        return bytes(self.init(base + i) for i in range(n))

    def check_page(self, base, data, now):
        """-> address of a byte that cannot have the given value, or None"""
        d = bytearray(data)
        init = self.init_page(base, len(data))
        for a in self.pages.get(base >> 12, ()):
            i = a - base
            if 0 <= i < len(d):
                if not self.ok(a, d[i], now, now):
                    return a
                d[i] = init[i]
        if d != init:
            for i in range(len(d)):
                if d[i] != init[i]:
                    return base + i
        return None

    def abort(self, now, port=0):
        for lst in self.h.values():
            for e in lst:
                if e.end == INF and e.port == port:
                    e.end = now
                    e.maybe = True


class TargetError(Exception):
    pass


class TargetTypeError(TypeError):
    pass


class Recorder:
    """A peripheral that records every access, takes time and fails on demand."""

    def __init__(self, ctx, site, cfg, model=None):
        self.ctx = ctx
        self.cfg = cfg
        self.rng = ctx.rng("rec:" + site)
        self.mem = {}
        self.model = model
        self.busy = {"r": 0, "w": 0}
        self.site = site
        ctx.count("stub.recording_target")

    def byte(self, a):
        return self.mem.get(a, init_byte(a))

    def _lat(self):
        c = self.cfg
        if self.ctx.cycle >= self.ctx.scn["stall_until"]:
            return 0
        if c.get("lat_p", 0) and self.rng.random() < c["lat_p"]:
            self.ctx.count("fault.target_latency")
            return self.rng.randint(1, c.get("lat_max", 5))
        return 0

    def _fails(self):
        if self.ctx.cycle >= self.ctx.scn["stall_until"]:
            return False
        if self.cfg.get("fail_p", 0) and self.rng.random() < self.cfg["fail_p"]:
            self.ctx.count("fault.target_error")
            return True
        return False

    def _exc(self):
        k = self.cfg.get("exc", "plain")
        if k == "type":
            return TargetTypeError("injected")
        if k == "value":
            return ValueError("injected")
        return TargetError("injected")

    def _do(self, kind, addr, arg):
        if kind == "r":
            return bytes(self.byte(addr + i) for i in range(arg))
        for i, b in enumerate(arg):
            self.mem[addr + i] = b
        return None


class AsyncRecorder(Recorder):
    async def _access(self, kind, addr, arg):
        call = self.model.target_call(self, kind, addr, arg)
        self.ctx.count("ops.target_calls")
        n = self._lat()
        if self.busy[kind]:
            self.ctx.fail("target-overlap", ["C17"], "two %s calls on the target are in progress at once" % kind)
        self.busy[kind] += 1
        try:
            if n:
                if self.cfg.get("lat_timer") == 2:
                    await Timer(n * self.ctx.period, "step")       # ends in the time step of a clock edge
                elif self.cfg.get("lat_timer"):
                    await Timer(n * 137, "step")
                else:
                    await self.ctx.cycles(n)
            if self._fails():
                self.model.target_done(call, True, None)
                raise self._exc()
            res = self._do(kind, addr, arg)
            self.model.target_done(call, False, res)
            return res
        finally:
            self.busy[kind] -= 1

    async def read(self, address, length, **kwargs):
        return await self._access("r", address, length)

    async def write(self, address, data, **kwargs):
        await self._access("w", address, bytes(data))


class SyncRecorder(Recorder):
    def _access(self, kind, addr, arg):
        call = self.model.target_call(self, kind, addr, arg)
        self.ctx.count("ops.target_calls")
        if self._fails():
            self.model.target_done(call, True, None)
            raise self._exc()
        res = self._do(kind, addr, arg)
        self.model.target_done(call, False, res)
        return res

    def read(self, address, length, **kwargs):
        return self._access("r", address, length)

    def write(self, address, data, **kwargs):
        self._access("w", address, bytes(data))


class TargetModel:
    """What an attached target may see, for any of the subordinate models.

    The bus model pushes expected accesses in bus order; a 'beat' object carries the outcome.
    Skipping: once one run of a beat has failed its remaining runs may or may not be performed."""

    def __init__(self, ctx, rst, props, mapped=None):
        self.ctx = ctx
        self.rst = rst
        self.props = props
        self.exp = {"r": [], "w": []}
        self.current = None            # the target in force
        self.prev = None
        self.switched_at = -1
        self.mapped = mapped or (lambda a, n: True)
        self.assert_t = -1
        self.calls = 0
        self.ambiguous = False

    def switch(self, rec):
        self.prev = self.current
        self.current = rec
        self.switched_at = self.ctx.sim.time

    def abort(self):
        self.exp = {"r": [], "w": []}
        self.assert_t = self.ctx.sim.time

    def push(self, kind, addr, arg, beat):
        """beat needs attributes failed (bool), calls (int), todo (int), res"""
        if not self.mapped(addr, arg if kind == "r" else len(arg)):
            beat.failed = True
            return
        beat.todo += 1
        self.exp[kind].append((addr, arg, beat))

    def target_call(self, rec, kind, addr, arg):
        ctx = self.ctx
        if self.rst.active or self.assert_t == ctx.sim.time:
            return None
        self.calls += 1
        q = self.exp[kind]
        if self.ambiguous:
            return None
        if q and q[0][2].failed:
            live = [e for e in q if not e[2].failed]
            if (q[0][0], q[0][1]) == (addr, arg) and live and (live[0][0], live[0][1]) == (addr, arg):
                self.ambiguous = True      # a skipped and a new access look the same: cannot tell them apart
                return None
        while q and q[0][2].failed and (q[0][0], q[0][1]) != (addr, arg):
            q[0][2].todo -= 1
            q.pop(0)
        what = "%s(0x%x, %s)" % ("read" if kind == "r" else "write", addr, arg if kind == "r" else arg.hex())
        if not q:
            ctx.fail("target-unexpected", self.props, "target got %s but the bus asked for nothing" % what)
            return None
        a, g, beat = q.pop(0)
        if (a, g) != (addr, arg):
            ctx.fail("target-mismatch", self.props, "target got %s, expected %s(0x%x, %s)" % (
                what, "read" if kind == "r" else "write", a, g if kind == "r" else g.hex()))
            return None
        if rec is not self.current and not (rec is self.prev and self.switched_at == ctx.sim.time):
            ctx.fail("target-wrong", self.props, "%s went to %s, not to the attached target" % (what, rec.site))
            return None
        beat.calls += 1
        return beat

    def target_done(self, beat, failed, res):
        if beat is None:
            return
        beat.todo -= 1
        if failed:
            beat.failed = True
        else:
            beat.res = res

    def drop_skippable(self, kind, beat):
        """A finished beat: forget its skipped runs."""
        if beat.failed:
            q = self.exp[kind]
            while q and q[0][2] is beat:
                beat.todo -= 1
                q.pop(0)

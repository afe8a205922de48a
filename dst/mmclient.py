"""Client tasks for the memory-mapped managers (AXI, AXI-Lite, APB): issue operations through the
public API, keep the book of what was accepted, and check completion, idleness, waiting and aborts."""
import cocotb
from cocotb.triggers import Event

from .common import data_bytes


class CountEvent(Event):
    """An Event that reports every set()."""

    def __init__(self, fn):
        super().__init__()
        self.fn = fn

    def set(self, data=None):
        self.fn(data)
        super().set(data)


class Op:
    def __init__(self, n, kind, addr, length, data, kw, cfg):
        self.n = n
        self.kind = kind
        self.addr = addr
        self.length = length
        self.data = data
        self.kw = kw
        self.cfg = cfg
        self.done = False
        self.nset = 0
        self.aborted = False
        self.waited = False
        self.helper = None

    def __repr__(self):
        return "%s#%d(addr=0x%x, len=%d%s)" % ("read" if self.kind == "R" else "write", self.n, self.addr, self.length,
                                                 "".join(", %s=%r" % kv for kv in sorted(self.kw.items()) if kv[0] != "event"))


HELPERS = ["words", "dwords", "qwords", "byte", "word", "dword", "qword"]
WS = {"words": None, "dwords": 4, "qwords": 8, "byte": 1, "word": None, "dword": 4, "qword": 8}


class MMClients:
    """
    tracker interface:
      accept(op)             the operation is about to be handed to the library
      unaccept(op)           it was refused after all / found flushed
      complete(op) -> bool   everything belonging to it has been answered on the bus
      check(op, res)         compare a completed operation's result with the bus
      abort()                reset: forget everything
    """

    def __init__(self, ctx, master, rst, tracker, proto_prop, idle_ifs):
        self.ctx = ctx
        self.m = master
        self.rst = rst
        self.tr = tracker
        self.pp = proto_prop          # property of the protocol's data path, e.g. "C07"
        self.idle_ifs = idle_ifs      # list of (object with idle(), kinds)
        self.ops = []
        self.out = {"R": set(), "W": set()}
        self.all_done_t = 0
        self.assert_t = -1
        self.waiters = []
        self.late = []
        self.idle_since = 0
        self.last_cycle = 0
        self.watchers = []
        self.aborting = []
        self.split = False
        rst.on_assert.append(self._assert)
        ctx.sim.settle_hooks.append(self._settle)

    # ---- events -----------------------------------------------------------
    def _assert(self):
        self.assert_t = self.ctx.sim.time
        for k in "RW":
            for op in self.out[k]:
                op.aborted = True
                self.aborting.append(op)
                self.ctx.count("fault.op_in_flight_at_reset")
        self.tr.abort()

    def _settle(self):
        ctx = self.ctx
        if self.aborting and self.assert_t == ctx.sim.time:
            for op in self.aborting:
                if not op.done:
                    ctx.fail("abort-missing", ["C11", "C12", "C13"], "%r outstanding at reset assertion did not terminate" % op)
                    return
            self.aborting.clear()
        for obj, kinds in self.idle_ifs:
            exp = not any(self.out[k] for k in kinds)
            if obj.idle() != exp:
                ctx.fail("idle", ["C13", "C20"] + (["C11"] if self.rst.n_asserts else []),
                         "%s.idle() is %s with %d reads and %d writes outstanding" % (
                             type(obj).__name__, obj.idle(), len(self.out["R"]), len(self.out["W"])))
                return
        if self.late:
            for op in self.late:
                if not op.done:
                    ctx.fail("wait-early", ["C13"], "wait returned while %r, accepted before it, is outstanding" % op)
                    return
            self.late.clear()
        if ctx.cycle != self.last_cycle:
            self.last_cycle = ctx.cycle
            for w in self.waiters:
                if any(self.out[k] for k in w[0]):
                    w[1] = 0
                else:
                    w[1] += 1
                    if w[1] > 3:
                        ctx.fail("wait-late", ["C13", "C12"], "wait for %s still blocked although nothing is outstanding" % w[0])
                        return

    def _finish(self, op, res, t):
        """The operation terminated, as seen by its caller."""
        ctx = self.ctx
        if op.done:
            ctx.fail("completed-twice", [self.pp, "C13", "C11"], "%r completed twice" % op)
            return
        op.done = True
        self.out[op.kind].discard(op)
        if isinstance(res, TypeError) or res is None:
            if op.aborted or (op.t_call == self.assert_t == ctx.sim.time):
                if not op.aborted:
                    self.tr.unaccept(op)
                ctx.count("ops.aborted")
                return
            if isinstance(res, TypeError):
                raise res
            ctx.fail("no-result", [self.pp, "C11", "C13"], "%r completed without a result although it was not outstanding at a reset" % op)
            return
        if op.aborted and self.assert_t != ctx.sim.time:
            ctx.fail("abort-result", ["C11"], "%r was outstanding at reset but returned %r" % (op, res))
            return
        ctx.count("ops.completed")
        ctx.last_progress = ctx.cycle
        if op.aborted:
            # completed on the bus in the very time step reset was asserted
            return
        if not self.tr.complete(op):
            ctx.fail("early", [self.pp], "%r completed before all of its responses were transferred" % op)
            return
        self.tr.check(op, res)

    # ---- issuing --------------------------------------------------------------
    def new(self, op):
        ctx = self.ctx
        kind = op["op"][0].upper()
        kw = {k: list(v) if isinstance(v, list) else v for k, v in op.get("kw", {}).items()}
        if kind == "W":
            data = data_bytes(op["ds"], op["len"])
        else:
            data = None
        o = Op(len(self.ops), kind, op["addr"], op["len"], data, kw, op)
        o.helper = op.get("h")
        o.t_call = ctx.sim.time
        o.cycle = ctx.cycle
        self.ops.append(o)
        return o

    def _enter(self, o):
        o.t_call = self.ctx.sim.time
        o.cycle = self.ctx.cycle
        self.out[o.kind].add(o)
        self.tr.accept(o)

    def _refused(self, o, e):
        self.out[o.kind].discard(o)
        self.tr.unaccept(o)
        o.done = True
        self.ctx.fail("valid-refused", ["C20", self.pp], "valid request %r refused: %s: %s" % (o, type(e).__name__, e))

    async def issue(self, op):
        ctx = self.ctx
        o = self.new(op)
        style = op.get("st", "b")
        obj = self.obj(o)
        win = op.get("win")
        if win is not None and o.length:
            # through a window of the manager
            base = self.obj(o)
            self._enter(o)
            wnd = base.create_window(win)
            try:
                if o.kind == "R":
                    res = await wnd.read(o.addr - win, o.length, **o.kw)
                else:
                    res = await wnd.write(o.addr - win, self._reused(o), **o.kw)
                    if not o.aborted:
                        res = ("helper", None)
            except ValueError as e:
                self._refused(o, e)
                return o
            ctx.count("ops.through_window")
            self._finish(o, res, ctx.sim.time)
            return o
        if style == "b" or o.helper:
            self._enter(o)
            try:
                if o.helper:
                    res = await self._helper(o, obj)
                elif o.kind == "R":
                    res = await obj.read(o.addr, o.length, **o.kw)
                else:
                    res = await obj.write(o.addr, self._reused(o), **self._kw_reused(o))
            except ValueError as e:
                self._refused(o, e)
                return o
            except TypeError as e:
                if o.helper:
                    res = e
                else:
                    raise
            if res is None and o.helper and o.kind == "W" and not o.aborted:
                res = ("helper", None)       # accessors do not report a result
            self._finish(o, res, ctx.sim.time)
            return o
        # non-blocking
        kw = dict(o.kw)
        ev = None
        if style == "c":
            ev = CountEvent(lambda d, o=o: self._ev_set(o, d))
            kw["event"] = ev
        self._enter(o)
        try:
            if o.kind == "R":
                ev2 = obj.init_read(o.addr, o.length, **kw)
            else:
                arg = self._arg(o)
                ev2 = obj.init_write(o.addr, arg, **kw)
                if isinstance(arg, bytearray):
                    arg[:] = bytes(len(arg))       # the caller reuses its buffer
                if isinstance(kw.get("wuser"), list):
                    o.kw = dict(o.kw, wuser=list(kw["wuser"]))
                    kw["wuser"].clear()
        except ValueError as e:
            self._refused(o, e)
            return o
        if ev is not None and ev2 is not ev:
            ctx.fail("event", ["C13"], "init call did not return the event it was given")
            return o
        if obj.idle():
            ctx.fail("idle", ["C13"], "idle() is True right after %r was accepted" % o)
            return o
        t = cocotb.start_soon(self._watch(o, ev2, style))
        self.watchers.append(t)
        return o

    def obj(self, o):
        if self.split or o.cfg.get("if"):
            return self.m.read_if if o.kind == "R" else self.m.write_if
        return self.m

    def _arg(self, o):
        # the caller may hand over any bytes-like object and reuse it afterwards
        if o.cfg.get("mut"):
            return bytearray(o.data)
        return o.data

    def _reused(self, o):
        """For a blocking write: another task reuses the buffer as soon as the call is waiting."""
        arg = self._arg(o)
        if isinstance(arg, bytearray):
            async def scramble():
                arg[:] = bytes(len(arg))
            cocotb.start_soon(scramble())
            self.ctx.count("fault.buffer_reused_during_write")
        return arg

    def _kw_reused(self, o):
        kw = dict(o.kw)
        if isinstance(kw.get("wuser"), list) and o.cfg.get("mut"):
            kw["wuser"] = list(kw["wuser"])

            async def scramble():
                kw["wuser"].clear()
            cocotb.start_soon(scramble())
        return kw

    def _ev_set(self, o, data):
        o.nset += 1
        if o.nset > 1:
            self.ctx.fail("completed-twice", [self.pp, "C13", "C11"], "completion event of %r was set %d times" % (o, o.nset))
            return
        self._finish(o, data, self.ctx.sim.time)

    async def _watch(self, o, ev, style):
        await ev.wait()
        o.waited = True
        if style == "c":
            if not o.nset:
                self.ctx.fail("event", ["C13"], "waiter resumed without the event being set")
        else:
            self._finish(o, ev.data, self.ctx.sim.time)

    async def _helper(self, o, m):
        h = o.helper
        ws = WS[h] or o.cfg.get("ws", 2)
        bo = o.cfg.get("bo", "little")
        plural = h.endswith("s")
        n = o.length // ws
        kw = dict(o.kw)
        dflt = o.n % 4             # defaults may be left out
        if h != "byte" and not (bo == "little" and dflt & 1):
            kw["byteorder"] = bo
        if WS[h] is None and not (ws == 2 and dflt & 2):
            kw["ws"] = ws
        if o.kind == "R":
            fn = getattr(m, "read_" + h)
            if plural:
                return ("words", await fn(o.addr, n, **kw), ws, bo)
            return ("words", [await fn(o.addr, **kw)], ws, bo)
        words = [int.from_bytes(o.data[i * ws:(i + 1) * ws], bo) for i in range(n)]
        fn = getattr(m, "write_" + h)
        r = await fn(o.addr, words if plural else words[0], **kw)
        return r

    async def wait(self, which):
        kinds = {"wait": "RW", "wait_read": "R", "wait_write": "W"}[which]
        need = [o for k in kinds for o in self.out[k]]
        w = [kinds, 0]
        self.waiters.append(w)
        if self.split:
            for k in kinds:
                await (self.m.read_if if k == "R" else self.m.write_if).wait()
            if len(kinds) > 1:
                need = []         # two separate waits: nothing joint is promised
        else:
            await getattr(self.m, which)()
        self.waiters.remove(w)
        if not self.split:
            for obj, ks in self.idle_ifs:
                if all(k in kinds for k in ks) and not obj.idle():
                    self.ctx.fail("wait-busy", ["C13"], "%s returned although %s is not idle" % (which, type(obj).__name__))
                    return
        self.late.extend(need)
        self.ctx.count("ops.wait")

    def reject(self, name, fn):
        """fn() must be refused at once."""
        ctx = self.ctx
        try:
            c = fn()
            if hasattr(c, "send"):
                try:
                    c.send(None)
                    what = "accepted and waiting"
                except StopIteration:
                    what = "completed"
                finally:
                    c.close()
            else:
                what = "returned %r" % (c,)
        except Exception:
            ctx.count("ops.rejected")
            ctx.count("fault.invalid_request")
            return
        ctx.fail("bad-accepted", ["C20"], "invalid request (%s) was %s" % (name, what))

    async def finish(self):
        for t in self.watchers:
            await t

    def pending(self):
        return len(self.out["R"]) + len(self.out["W"])

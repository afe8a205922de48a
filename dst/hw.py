"""Simulated hardware: reset controller, stall patterns, wire monitors and native
(reference) bus drivers.  Nothing here uses the library under test."""
from collections import deque

import cocotb
from cocotb.triggers import Timer


def init_byte(addr):
    """Initial content of reference memories: position dependent, non zero."""
    return (addr * 167 + (addr >> 8) * 29 + (addr >> 16) * 3 + 0x5b) & 0xff


class Pat:
    """Stall pattern; every pattern stops stalling at ctx.scn['stall_until']."""

    def __init__(self, ctx, cfg, site):
        self.ctx = ctx
        self.cfg = cfg or {"k": "none"}
        self.k = self.cfg["k"]
        self.rng = ctx.rng("pat:" + site)
        self.until = ctx.scn.get("stall_until", 0)
        self.n = 0
        self.site = site

    def next(self, valid=True):
        """True: stall this cycle."""
        k = self.k
        if k == "none":
            return False
        c = self.cfg
        if self.ctx.cycle >= self.until and not c.get("ever"):
            return False
        self.n += 1
        if k == "rand":
            s = self.rng.random() < c["p"]
        elif k == "burst":
            s = (self.n % (c["on"] + c["off"])) >= c["on"]
        elif k == "hold":            # stall solidly until the end of the fault phase
            s = True
        elif k == "aftervalid":      # only release once valid has been seen for d cycles
            if not valid:
                self.n = 0
                s = True
            else:
                s = self.n <= c["d"]
        elif k == "chaos":           # random-length runs
            if self.n >= getattr(self, "_end", 0):
                self._end = self.n + self.rng.randint(1, c["max"])
                self._val = self.rng.random() < c["p"]
            s = self._val
        else:
            raise ValueError(k)
        if s:
            self.ctx.count("fault.stall")
        return s

    def gen(self):
        """As a pause generator for the library (one value per clock)."""
        if self.k == "none":
            return
        while self.ctx.cycle < self.until:
            yield self.next(True)
        yield False


class GenWatch:
    """Pause generators of library models: the first value applies at once, then one more per clock edge."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.w = {}
        self.man = {}
        self.man_t = {}
        self.exp = {}                   # id -> (component, name, pause setting it must have)
        self.rules = []
        self.cycle = -1
        ctx.sim.settle_hooks.append(self.settle)
        ctx.clk.on(1, self.edge)

    def rule(self, comp, cm, is_src):
        """A paused source starts nothing; a paused sink withholds ready."""
        self.rules.append([comp, cm, is_src, 0, False])
        self.watch(comp, cm.name + (" source" if is_src else " sink"))

    def watch(self, comp, name):
        if id(comp) not in self.exp:
            self.exp[id(comp)] = [comp, name, False]

    def edge(self):
        for r in self.rules:
            cm = r[1]
            r[4] = cm.valid.ival == 1 and cm.ready.ival != 1

    def set(self, comp, gen, name):
        self.watch(comp, name)
        self.man[id(comp)] = self.ctx.cycle
        self.man_t[id(comp)] = self.ctx.sim.time
        st = {"c": self.ctx.cycle, "n": 0, "end": False, "name": name}
        exp = self.exp[id(comp)]

        def run():
            for v in gen:
                if st["n"] and self.w.get(id(comp)) is not st:
                    self.ctx.fail("generator-alive", ["C14"], "%s: a pause generator was advanced after it had been replaced or cleared" % name)
                st["n"] += 1
                exp[2] = v
                yield v
            st["end"] = True
        self.w[id(comp)] = st
        self.ctx.count("cover.pause_generator")
        comp.set_pause_generator(run())

    def clear(self, comp, none=False):
        self.w.pop(id(comp), None)
        self.man[id(comp)] = self.ctx.cycle
        self.man_t[id(comp)] = self.ctx.sim.time
        if none:
            comp.set_pause_generator(None)
        else:
            comp.clear_pause_generator()

    def manual(self, comp, v):
        self.watch(comp, "a model")
        self.man[id(comp)] = self.ctx.cycle
        self.man_t[id(comp)] = self.ctx.sim.time
        self.exp[id(comp)][2] = v
        comp.pause = v

    def settle(self):
        ctx = self.ctx
        if ctx.cycle == self.cycle or ctx.clk.ival != 1:
            return
        self.cycle = ctx.cycle
        for r in self.rules:
            comp, cm, is_src, n, held = r
            if cm.rst.active or not comp.pause or self.man.get(id(comp), -9) >= ctx.cycle - 1:
                r[3] = 0
                continue
            r[3] = n = n + 1
            if is_src:
                if n > 2 and cm.valid.ival == 1 and not held:
                    ctx.fail("paused-beat", ["C14"], "%s source started a transfer although paused" % cm.name)
                    return
            elif n > 3 and cm.ready.ival != 0:
                ctx.fail("paused-ready", ["C14"], "%s sink still ready although paused" % cm.name)
                return
        for k, st in list(self.w.items()):
            if st["end"]:
                del self.w[k]
                continue
            if st["n"] != ctx.cycle - st["c"] + 1:
                ctx.fail("pause-gen", ["C14"], "pause generator of %s advanced %d times in %d clock edges" % (st["name"], st["n"] - 1, ctx.cycle - st["c"]))
                return
        for comp, name, v in self.exp.values():
            if bool(comp.pause) != bool(v):
                ctx.fail("pause-gen", ["C14"], "pause of %s is %s although %s was the last value given by the user or the generator" % (name, comp.pause, v))
                return


async def pauses(ctx, scn, comps, gw):
    def setgen(ch, p, n):
        gw.set(comps[ch], Pat(ctx, p, "lp%s%s" % (ch, n or "")).gen(), ch)
    for k, p in scn["lp"].items():
        if p["k"] != "none":
            setgen(k, p, 0)
    for i, op in enumerate(scn["ctl"]):
        await ctx.delay(op)
        if ctx.cycle >= scn["stall_until"]:
            break
        c = comps[op["ch"]]
        if "g" in op:
            setgen(op["ch"], op["g"], i + 1)
            ctx.count("fault.pause_generator_replaced")
        elif op.get("clr"):
            gw.clear(c, op["clr"] == 2)
            ctx.count("fault.pause_generator_cleared")
        else:
            gw.manual(c, bool(op["v"]))
            ctx.count("fault.pause_toggle")
    while ctx.cycle < scn["stall_until"]:
        await ctx.cycles(1)
    await ctx.cycles(1)
    for c in comps.values():
        gw.clear(c)
        gw.manual(c, False)


def watch_pauses(ctx, comps, wires):
    gw = GenWatch(ctx)
    for k, c in comps.items():
        gw.rule(c, wires.mon[k[2:]], (k[0] == "m") == (k[2:] in ("aw", "w", "ar")))
    return gw


def rand_pat(rng, heavy=False):
    x = rng.random()
    if x < (0.15 if heavy else 0.4):
        return {"k": "none"}
    if x < 0.6:
        return {"k": "rand", "p": round(rng.choice([0.1, 0.3, 0.5, 0.8]), 2)}
    if x < 0.72:
        return {"k": "burst", "on": rng.randint(1, 6), "off": rng.randint(1, 12)}
    if x < 0.82:
        if rng.random() < 0.5:         # a receiver that always raises ready only once it sees valid
            return {"k": "aftervalid", "d": rng.randint(0, 1), "ever": 1}
        return {"k": "aftervalid", "d": rng.randint(0, 3)}
    if x < 0.95:
        return {"k": "chaos", "max": rng.randint(2, 24), "p": 0.5}
    return {"k": "hold"}


class Rst:
    """Reset signal with scheduled pulses."""

    def __init__(self, ctx, cfg):
        self.ctx = ctx
        self.level = cfg.get("level", 1)
        self.present = cfg.get("present", True)
        self.dflt = cfg.get("dflt", 0)
        init = cfg.get("init", "off")
        self.sig = None
        self.active = False
        self.ext = False
        self.n_asserts = 0
        self.on_assert = []
        self.on_release = []
        self.last_change_cycle = 0
        if self.present:
            self.sig = ctx.sig("rst", 1, {"off": 1 - self.level, "x": "x"}[init] if init != "on" else self.level)
            self.sig.on(3, self._changed)
            if init == "x":
                ctx.sim.after(1, lambda: self.sig.put(1 - self.level))
        self.comps = []                # library objects, for resets by assert_reset()
        self.local = False
        self.pulses = cfg.get("pulses", [])
        for p in self.pulses:
            self._sched(p)

    def attach(self, comps):
        """Starts the resets by method call on all of comps at once."""
        self.comps = [c for c in comps if c is not None]
        for p in self.pulses:
            if p["mode"] in ("local", "call"):
                cocotb.start_soon(self._run_local(p))

    async def _run_local(self, p):
        ctx = self.ctx
        await ctx.cycles(max(1, p["at"] - ctx.cycle))
        await Timer(p["ph"], "step")
        comps = list(self.comps)
        if ctx.sched_rng is not None:
            ctx.sched_rng.shuffle(comps)
        ctx.count("fault.reset_by_method")
        self._set_local(True)
        if p["mode"] == "call":
            self._set_local(False)
            for c in comps:
                c.assert_reset()
            return
        for c in comps:
            c.assert_reset(True)
        await ctx.cycles(max(1, p["len"]))
        await Timer(p["ph2"], "step")
        self._set_local(False)
        for c in comps:
            c.assert_reset(False)

    def _set_local(self, v):
        self.local = v
        self._changed()

    def _sched(self, p):
        ctx = self.ctx
        if not self.present or p["mode"] in ("local", "call"):
            return

        def fire():
            if p["mode"] == "sync":
                self.sig.nba(self.level)
                n = max(1, p["len"])
                ctx.at_cycle(ctx.cycle + n, lambda: self.sig.nba(1 - self.level))
            elif p["mode"] == "glitch":      # asserted and released between two clock edges
                ctx.sim.after(p["ph"], lambda: self.sig.put(self.level))
                ctx.sim.after(p["ph"] + p.get("w", 7), lambda: self.sig.put(1 - self.level))
            elif p["mode"] == "x":           # reset goes unknown for a while without being asserted
                ctx.sim.after(p["ph"], lambda: self.sig.put(None))
                ctx.at_cycle(ctx.cycle + max(1, p["len"]), lambda: self.sig.nba(1 - self.level))
            else:
                ctx.sim.after(p["ph"], lambda: self.sig.put(self.level))
                ctx.at_cycle(ctx.cycle + max(1, p["len"]),
                             lambda: ctx.sim.after(p.get("ph2", 3), lambda: self.sig.put(1 - self.level)))
        ctx.at_cycle(p["at"], fire)

    def _changed(self):
        if self.sig is not None and self.sig.ival is not None:
            self.ext = self.sig.ival == self.level
        act = self.ext or self.local
        if act == self.active:
            return
        self.active = act
        self.last_change_cycle = self.ctx.cycle
        if act:
            self.n_asserts += 1
            self.ctx.count("fault.reset_assert")
            for f in self.on_assert:
                f()
        else:
            for f in self.on_release:
                f()

    @property
    def hdl(self):
        return getattr(self.ctx.top, "rst") if self.present else None

    def kwargs(self):
        """Constructor arguments for the library models; an active-high reset is the default."""
        if not self.present:
            return {}
        kw = {"reset": self.hdl}
        if not self.level or not self.dflt:
            kw["reset_active_level"] = bool(self.level)
        return kw


class ChanMon:
    """Samples one ready/valid channel at each rising clock edge; checks the handshake rules."""

    def __init__(self, ctx, name, valid, ready, payload, rst, lib_src=True, lib_snk=True, props=("C01",),
                 check_x=True, reset_props=("C11",)):
        self.ctx = ctx
        self.name = name
        self.valid = valid
        self.ready = ready
        self.payload = payload          # dict name -> Sig
        self.plist = list(payload.items())
        self.rst = rst
        self.lib_src = lib_src
        self.lib_snk = lib_snk
        self.props = list(props)
        self.rprops = list(reset_props)
        self.check_x = check_x
        self.prev = None                # payload tuple of a beat offered and not yet accepted
        self.beats = 0
        self.stalled = 0
        self.cb = []                    # fn(dict) per accepted beat
        self.log = None
        self.rst_n = 0
        self.armed = False
        ctx.clk.on(1, self.edge)
        rst.on_assert.append(self._rst)

    def _rst(self):
        self.prev = None

    def edge(self):
        v = self.valid.ival if self.valid is not None else 1
        r = self.ready.ival if self.ready is not None else 1
        ctx = self.ctx
        if self.rst.active:
            self.prev = None
            if self.lib_src and self.valid is not None and v != 0:
                ctx.fail("valid-in-reset", self.rprops, "%s: valid is %s at a clock edge with reset asserted" % (self.name, self.valid.bits))
            if self.lib_snk and self.ready is not None and r != 0:
                ctx.fail("ready-in-reset", self.rprops, "%s: ready is %s at a clock edge with reset asserted" % (self.name, self.ready.bits))
            return
        if self.lib_src and v is None:
            ctx.fail("valid-unknown", self.props, "%s: valid is unknown" % self.name)
            return
        if self.lib_snk and r is None:
            ctx.fail("ready-unknown", self.props, "%s: ready is unknown" % self.name)
            return
        if self.lib_src and self.prev is not None:
            if not v:
                ctx.fail("valid-dropped", self.props, "%s: valid deasserted before ready" % self.name)
                return
            cur = [s.bits for _, s in self.plist]
            if cur != self.prev:
                diff = [n for (n, s), o in zip(self.plist, self.prev) if s.bits != o]
                ctx.fail("payload-changed", self.props, "%s: payload %s changed while waiting for ready" % (self.name, diff))
                return
        if v:
            if self.lib_src and self.check_x:
                for n, s in self.plist:
                    if s.ival is None:
                        ctx.fail("payload-unknown", self.props, "%s: %s has unknown bits (%s) while valid" % (self.name, n, s.bits))
                        return
            if r:
                self.prev = None
                self.beats += 1
                ctx.last_progress = ctx.cycle
                if self.cb or self.log is not None:
                    d = {n: s.ival for n, s in self.plist}
                    if self.log is not None:
                        self.log.append((ctx.cycle, ctx.sim.time, d))
                    for f in self.cb:
                        f(d)
            else:
                self.stalled += 1
                self.prev = [s.bits for _, s in self.plist]
        else:
            self.prev = None


class NatSource:
    """Reference ready/valid driver."""

    def __init__(self, ctx, name, valid, ready, payload, rst, pat=None, x_idle=False):
        self.ctx = ctx
        self.name = name
        self.valid = valid
        self.ready = ready
        self.payload = payload
        self.rst = rst
        self.q = deque()
        self.pat = Pat(ctx, pat, name)
        self.x_idle = x_idle
        self.busy = False
        self.on_beat = None
        self.cur = None
        self.feed = None               # called to refill the queue
        valid.put(0)
        for s in payload.values():
            s.put(None if x_idle else 0)
        ctx.clk.on(1, self.edge)
        rst.on_assert.append(self._rst)

    def _rst(self):
        self.q.clear()
        self.busy = False
        self.cur = None
        self.valid.nba(0)

    def edge(self):
        if self.rst.active:
            return
        if self.busy and (self.ready is None or self.ready.ival == 1):
            self.busy = False
            if self.on_beat is not None:
                self.on_beat(self.cur)
            if "_f" in self.cur:
                self.ctx.misdeed.happened(self.cur["_f"])
            self.cur = None
            drop = True
        else:
            drop = False
        if not self.busy:
            if self.feed is not None:
                self.feed()
            if self.q and not self.pat.next(True):
                self.cur = self.q.popleft()
                for n, s in self.payload.items():
                    s.nba(self.cur.get(n, 0))
                self.valid.nba(1)
                self.busy = True
            elif drop:
                self.valid.nba(0)
                if self.x_idle:
                    for s in self.payload.values():
                        s.nba(None)
                    self.ctx.count("fault.x_on_idle_payload")


class ContinuousSource(NatSource):
    """Driver of a stream without a valid signal: a new beat after every accepted one, forever."""

    def __init__(self, ctx, name, valid, ready, payload, rst, pat, filler):
        super().__init__(ctx, name, valid, ready, payload, rst, pat)
        self.filler = filler           # fn() -> beat when nothing is queued
        valid.put(1)
        self.valid = None

    def _rst(self):
        self.q.clear()

    def edge(self):
        if self.rst.active or not (self.ready is None or self.ready.ival == 1):
            return
        d = self.q.popleft() if self.q and not self.pat.next(True) else self.filler()
        for n, s in self.payload.items():
            s.nba(d.get(n, 0))


class Misdeed:
    """A protocol violation injected by a native component (c: kind and position)."""

    def __init__(self, ctx, c, rst):
        self.ctx = ctx
        self.c = c
        self.k = c["k"]
        self.armed = True              # not yet handed to the driver
        self.seen = False              # the illegal transfer took place
        self.reported = False
        self.n = 0
        self.free = None               # fn() -> IDs without an outstanding burst
        self.used = []                 # IDs used so far
        self.id = None
        self.rng = ctx.rng("misdeed")
        ctx.misdeed = self
        rst.on_assert.append(self._rst)
        ctx.sim.settle_hooks.append(self._settle)

    def _rst(self):
        if self.seen:
            self.stop()
        else:
            self.armed = True

    def stop(self):
        """A reset, or a new operation with that ID in the same instant: either outcome is legitimate."""
        self.ctx.count("fault.peer_violation_undecided")
        self.ctx.sim.done = True
        self.ctx.sim.stop_reason = "undecided"

    def happened(self, tag):
        if self.seen:
            return
        self.seen = True
        self.tag = tag
        self.ctx.count("fault.peer_violation_" + tag)
        self.id = tag

    def _settle(self):
        if self.seen and self.free is not None and self.id is not None:
            self.id = None
            if self.pick_id not in self.free():
                self.stop()

    def take_id(self, now):
        """An ID for an unsolicited response, or None."""
        if not self.armed or (self.ctx.cycle < self.c["at"] and not now):
            return None
        ids = self.free()
        if not ids:
            return None
        u = [i for i in self.used if i in ids]
        self.pick_id = self.rng.choice(u) if u and self.rng.random() < 0.7 else self.rng.choice(ids)
        self.armed = False
        return self.pick_id


class NatSink:
    """Reference ready/valid receiver."""

    def __init__(self, ctx, name, valid, ready, payload, rst, fn, pat=None, gate=None):
        self.ctx = ctx
        self.valid = valid
        self.ready = ready
        self.payload = payload
        self.rst = rst
        self.fn = fn
        self.gate = gate               # fn() -> True when the receiver has room
        self.pat = Pat(ctx, pat, name)
        self.rdy = False
        self.name = name
        self.probe = None
        if ready is not None:
            ready.put(0)
            if self.pat.cfg.get("ever"):
                ctx.probes.append(self)
        ctx.clk.on(1, self.edge)
        rst.on_assert.append(self._rst)

    def _rst(self):
        self.rdy = False
        if self.ready is not None:
            self.ready.nba(0)

    def release(self):
        """The run is stuck: does raising ready make valid rise?"""
        if self.valid.ival != 1:
            self.pat.k = "none"
            self.probe = self.ctx.cycle

    def edge(self):
        if self.rst.active:
            return
        v = self.valid.ival == 1
        if v and self.probe is not None:
            self.ctx.fail("valid-needs-ready", ["C01"], "%s: valid stayed low for ever and rose %d cycles after ready did" % (
                self.name, self.ctx.cycle - self.probe))
            self.probe = None
        if v and (self.rdy or self.ready is None):
            self.fn({n: s.ival for n, s in self.payload.items()})
            v2 = False
        else:
            v2 = v
        if self.ready is not None:
            rdy = not self.pat.next(v2) and (self.gate is None or self.gate())
            if rdy != self.rdy:
                self.rdy = rdy
                self.ready.nba(1 if rdy else 0)


def sub(sigs, names):
    return {n: sigs[n] for n in names if n in sigs}


class WaitWatch:
    """Oracle for wait(timeout) of one receiver: arrivals are the times at which items complete on the wires."""

    def __init__(self, ctx, comp, name, props, default_unit):
        self.ctx = ctx
        self.comp = comp
        self.name = name
        self.props = props
        self.default_unit = default_unit
        self.arrivals = []
        self.open = []

    def arrive(self):
        self.arrivals.append(self.ctx.sim.time)

    async def wait(self, to, unit="ns"):
        ctx = self.ctx
        w = [ctx.sim.time, len(self.arrivals), to, self.comp.empty()]
        self.open.append(w)
        t0 = w[0]
        if not to:
            await (self.comp.wait() if unit == "ns" else self.comp.wait(0))
        elif unit == "ns" and self.default_unit == "ns" and int(to) & 1:
            await self.comp.wait(to)
        else:
            await self.comp.wait(timeout=to, timeout_unit=unit)
        self.open.remove(w)
        now = ctx.sim.time
        ctx.count("ops.sink_wait")
        if not w[3]:
            if now != t0:
                ctx.fail("wait-late", self.props, "%s: wait(%r) took %d ps although something was queued" % (self.name, to, now - t0))
            return
        ends = set(t for t in self.arrivals[max(0, w[1] - 1):] if t >= t0)
        if to:
            dl = t0 + int(to * {"ns": 1000, "ps": 1, "us": 1000000, "step": 1}[unit])
            if now > dl:
                ctx.fail("wait-timeout", self.props, "%s: wait(%r, %s) took %d ps" % (self.name, to, unit, now - t0))
                return
            ends.add(dl)
        if now not in ends:
            ctx.fail("wait-wrong", self.props, "%s: wait(%r, %s) on an empty queue returned after %d ps, at which nothing arrived" % (
                self.name, to, unit, now - t0))
            return
        # an arrival in the very time step in which a timed wait began may be missed (cocotb's First)
        first = [t for t in ends if t > t0]
        if now > t0 and now != min(first):
            ctx.fail("wait-late", self.props, "%s: wait(%r, %s) returned after %d ps, but something arrived after %d ps" % (
                self.name, to, unit, now - t0, min(first) - t0))

    def final(self):
        for t0, n, to, emp in self.open:
            if not emp or any(t > t0 for t in self.arrivals):
                self.ctx.fail("wait-stuck", self.props, "%s: wait(%r) begun at %d never returned although something arrived" % (self.name, to, t0))
                return

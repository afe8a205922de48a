"""AXI-Stream: library source / native source -> wires (+monitors) -> library sink / native sink."""
from cocotb.queue import QueueFull, QueueEmpty
from cocotb.triggers import Event, Edge, Timer
import cocotb
from cocotbext.axi import (AxiStreamBus, AxiStreamSource, AxiStreamSink, AxiStreamMonitor, AxiStreamFrame)

from .common import *
from .hw import Rst, GenWatch, ChanMon, ContinuousSource, NatSource, NatSink, Pat, WaitWatch, rand_pat

NAME = "axis"


# ---------------------------------------------------------------- generation
def gen(rng, seed, prop):
    horizon = rng.choice([120, 250, 400])
    preset = {"C11": 0.95, "C04": 0.35, "C05": 0.4, "C01": 0.3, "C12": 0.35, "C14": 0.25, "C19": 0.25}.get(prop, 0.2)
    scn = gen_base(rng, seed, NAME, prop, reset=preset, horizon=horizon)
    mode = pick(rng, [("ll", 5), ("ln", 3), ("nl", 3)])
    if prop == "C05":
        mode = pick(rng, [("ll", 2), ("ln", 4), ("nl", 1)])
    lanes = pick(rng, [(1, 2), (2, 2), (3, 2), (4, 3), (5, 1), (7, 1), (8, 2), (16, 1), (32, 0.4), (64, 0.3)])
    bs = pick(rng, [(8, 12), (1, 1), (4, 1), (9, 1), (16, 2)])
    spec = pick(rng, [("keep", 6), ("size", 1), ("lanes", 1), ("default", 1)])
    if spec == "default":
        bs = 8
    cfg = {"lanes": lanes, "bs": bs, "spec": spec, "mode": mode,
           "last": rng.random() < 0.85, "ready": rng.random() < 0.9,
           "id": pick(rng, [(0, 3), (1, 1), (8, 3), (16, 0.5)]), "dest": pick(rng, [(0, 3), (4, 2), (8, 2), (12, 0.5)]),
           "user": pick(rng, [(0, 3), (1, 3), (5, 1), (24, 0.7), (70, 0.4)]),
           "prefix": pick(rng, [("axis", 3), ("", 1)]),
           "mon": 0 if rng.random() < 0.4 else rng.randint(1, 2), "rd": pick(rng, [("frames", 5), ("bytes", 2), ("mixed", 2)])}
    if prop == "C19":
        cfg["mon"] = rng.randint(1, 3)
    if mode == "nl" and cfg["last"]:
        cfg["valid"] = rng.random() < 0.85
    scn["cfg"] = cfg
    heavy = rng.random() < 0.5
    keep = spec == "keep"
    nframes = 0
    clients = []
    nclients = pick(rng, [(1, 5), (2, 3), (3, 1)])
    if not cfg["last"]:
        nclients = 1
    maxlen = pick(rng, [(lanes * 2 + 1, 3), (lanes * 5 + 2, 4), (lanes * 14, 1), (lanes * 70, 0.2)])

    def frame_fields():
        n = pick(rng, [(1, 2), (rng.randint(1, maxlen), 6), (lanes, 1), (lanes + 1, 1), (max(1, lanes - 1), 1), (2 * lanes, 1)])
        f = {"n": n, "ds": rng.getrandbits(20)}
        if keep:
            f["keep"] = pick(rng, [("none", 5), ("rand", 3), ("short", 1), ("zeros", 1)])
        for s in ("tid", "tdest", "tuser"):
            k = pick(rng, [("none", 2), ("int", 3), ("list", 2), ("short", 1)])
            if k != "none":
                f[s] = k
        f["txc"] = pick(rng, [("none", 2), ("fn", 3), ("ev", 2)]) if prop != "C05" else pick(rng, [("none", 1), ("fn", 4), ("ev", 3)])
        return f

    if mode in ("ll", "ln"):
        for c in range(nclients):
            ops = []
            for _ in range(many(rng, 7)):
                op = gen_d(rng, 0.3 if heavy else 0.5)
                op["op"] = pick(rng, [("send", 5), ("send_nowait", 3), ("write", 1), ("write_nowait", 1)])
                op.update(frame_fields())
                op["mut"] = rng.random() < 0.3
                if not ops and rng.random() < 0.1:
                    ops.append({"op": "wait"})
                ops.append(op)
                nframes += 1
                if rng.random() < 0.2:
                    o = gen_d(rng)
                    o["op"] = "wait"
                    ops.append(o)
            clients.append(ops)
        scn["src"] = {"pat": rand_pat(rng) if rng.random() < 0.5 else {"k": "none"},
                      "lim_f": pick(rng, [(-1, 5), (1, 1), (2, 1), (9, 0.4)]), "lim_b": pick(rng, [(-1, 6), (lanes * 3, 1), (1, 0.5)])}
        ctl = []
        if rng.random() < (0.6 if prop in ("C14", "C05") else 0.35):
            for _ in range(rng.randint(1, 6)):
                op = gen_d(rng, 0.9, 0.4)
                op["op"] = pick(rng, [("pause", 4), ("pgen", 1), ("clear", 2 if prop in ("C05", "C11", "C14") else 1), ("wait", 2)])
                if op["op"] == "pause":
                    op["v"] = rng.random() < 0.6
                if op["op"] == "pgen":
                    op["pat"] = rand_pat(rng)
                ctl.append(op)
        scn["ctl"] = ctl
    else:
        nat = []
        for _ in range(many(rng, 12)):
            f = {"beats": pick(rng, [(1, 3), (2, 2), (rng.randint(1, 8), 4)]), "ds": rng.getrandbits(20),
                 "keep": pick(rng, [("full", 3), ("rand", 3), ("tail", 3), ("zeros", 1)])}
            f["side"] = pick(rng, [("const", 2), ("beat", 2)])
            f.update({"d": rng.randint(0, 12)} if rng.random() < 0.4 else {})
            nat.append(f)
        scn["nat"] = nat
        nframes = len(nat)
    scn["natpat"] = rand_pat(rng, heavy)
    scn["x_idle"] = rng.random() < 0.4
    scn["clients"] = clients
    if mode in ("ll", "nl"):
        rx = []
        for c in range(pick(rng, [(1, 4), (2, 2), (3, 1)])):
            ops = []
            for _ in range(rng.randint(1, 6)):
                op = gen_d(rng, 0.5, 0.3)
                if cfg["rd"] == "frames":
                    op["op"] = pick(rng, [("recv", 4), ("recv_nowait", 2), ("wait", 2)])
                    op["compact"] = rng.random() < 0.6
                    if op["op"] == "wait":
                        op.update(gen_wait(rng))
                elif cfg["rd"] == "bytes":
                    op["op"] = pick(rng, [("read", 3), ("read_nowait", 2)])
                    op["n"] = pick(rng, [(-1, 2), (1, 1), (rng.randint(0, 9), 3)])
                else:
                    op["op"] = pick(rng, [("recv", 3), ("recv_nowait", 2), ("read", 1), ("read_nowait", 1)])
                    op["n"] = -1
                    op["compact"] = rng.random() < 0.6
                ops.append(op)
            rx.append(ops)
        scn["rx"] = rx
        scn["snk"] = {"pat": rand_pat(rng, heavy) if rng.random() < 0.7 else {"k": "none"},
                      "lim_f": pick(rng, [(-1, 5), (1, 2), (2, 1), (4, 1), (10, 0.5)] if prop == "C14" else [(-1, 6), (1, 1), (3, 1)]),
                      "lim_b": pick(rng, [(-1, 5), (lanes * 3, 1), (1, 0.5)])}
        sctl = []
        if rng.random() < (0.7 if prop == "C14" else 0.3):
            for _ in range(rng.randint(1, 6)):
                op = gen_d(rng, 0.9, 0.4)
                op["op"] = pick(rng, [("pause", 4), ("pgen", 1), ("clear", 1), ("limit", 2)])
                if op["op"] == "pause":
                    op["v"] = rng.random() < 0.6
                if op["op"] == "pgen":
                    op["pat"] = rand_pat(rng)
                if op["op"] == "limit":
                    op["v"] = rng.choice([-1, 1, 2, 5])
                sctl.append(op)
        scn["sctl"] = sctl
    if cfg["mon"]:
        scn["mon_rd"] = [dict(gen_mon_rd(rng), rd="frames" if cfg["rd"] == "frames" or rng.random() < 0.5 else "bytes") for _ in range(cfg["mon"])]
    finish_limits(scn)
    return scn


def finish_limits(scn):
    """(Re)computes the derived fields of a scenario; also used by the minimiser."""
    beats = 0
    lanes = scn["cfg"]["lanes"]
    for ops in scn.get("clients", []):
        for op in ops:
            if "n" in op:
                op["n"] = max(1, op["n"])
            beats += (op.get("n", 0) + lanes - 1) // lanes
    for f in scn.get("nat", []):
        beats += f["beats"] + f.get("d", 0)
    d = max([sum_d([o]) for o in scn.get("clients", []) + scn.get("rx", []) + [scn.get("ctl", [])] + [scn.get("sctl", [])]] or [0])
    rl = sum(p["len"] + 10 for p in scn["rst"]["pulses"])
    lastr = max([p["at"] for p in scn["rst"]["pulses"]] or [0])
    nops = sum(len(o) for o in scn.get("clients", []) + scn.get("rx", []))
    scn["max_cycles"] = scn["stall_until"] + lastr + rl + d * 2 + beats * 4 + nops * 10 + 300
    return scn


normalise = finish_limits


def without_monitors(scn):
    scn["cfg"]["mon"] = 0
    scn.pop("mon_rd", None)
    return scn


# ---------------------------------------------------------------- reference
class Frame:
    __slots__ = ("idx", "beats", "state", "done_beats", "txc", "txc_n", "txc_cycle", "acc_cycle", "desc", "nbytes", "discard_why", "t_send", "arg", "t_txc", "data", "beat_t0")

    def __init__(self, idx, beats, txc, desc, nbytes):
        self.idx = idx
        self.beats = beats
        self.state = "queued"           # queued / sent / discarded
        self.done_beats = 0
        self.txc = txc
        self.txc_n = 0
        self.txc_cycle = None
        self.acc_cycle = None
        self.desc = desc
        self.nbytes = nbytes
        self.discard_why = None
        self.t_send = 0
        self.arg = None
        self.t_txc = None
        self.beat_t0 = None
        self.data = None


def expand(v, n, default=0):
    if v is None:
        return [default] * n
    if isinstance(v, int):
        return [v] * n
    v = list(v)
    return v[:n] + [v[-1]] * (n - len(v))


def frame_beats(cfg, sigs, data, keep, tid, tdest, tuser):
    """Beats a frame occupies on the wires, by the AXI-Stream definition of the frame format."""
    lanes, bs = cfg["lanes"], cfg["bs"]
    n = len(data)
    keep = expand(keep, n, 1)
    tid, tdest, tuser = expand(tid, n), expand(tdest, n), expand(tuser, n)
    out = []
    for base in range(0, n, lanes):
        idx = range(base, min(base + lanes, n))
        b = {"tdata": sum((data[i] & ((1 << bs) - 1)) << ((i - base) * bs) for i in idx)}
        if "tkeep" in sigs:
            b["tkeep"] = sum((keep[i] & 1) << (i - base) for i in idx)
        last = idx[-1]
        if "tlast" in sigs:
            b["tlast"] = 1 if last == n - 1 else 0
        if "tid" in sigs:
            b["tid"] = tid[last]
        if "tdest" in sigs:
            b["tdest"] = tdest[last]
        if "tuser" in sigs:
            b["tuser"] = tuser[last]
        out.append(b)
    return out


def ref_rx(cfg, sigs, beats, compact):
    """What a receiver must report for the beats of one frame."""
    lanes, bs = cfg["lanes"], cfg["bs"]
    m = (1 << bs) - 1
    data, keep, side = [], [], {"tid": [], "tdest": [], "tuser": []}
    for b in beats:
        for o in range(lanes):
            data.append((b["tdata"] >> (o * bs)) & m)
            if "tkeep" in sigs:
                keep.append((b["tkeep"] >> o) & 1)
            for s in side:
                if s in sigs:
                    side[s].append(b[s])
    if not compact:
        return {"tdata": data, "tkeep": keep, **side}
    if "tkeep" in sigs:
        sel = [i for i, k in enumerate(keep) if k]
        data = [data[i] for i in sel]
        side = {s: [v[i] for i in sel] if v else v for s, v in side.items()}
    r = {"tdata": data, "tkeep": None}
    for s, v in side.items():
        r[s] = None if not v else (v[0] if all(x == v[0] for x in v) else v)
    return r


def rx_view(f):
    return {"tdata": list(f.tdata), "tkeep": f.tkeep if f.tkeep is None else list(f.tkeep),
            "tid": f.tid, "tdest": f.tdest, "tuser": f.tuser}


class CountEvent(Event):
    def __init__(self, fn):
        super().__init__()
        self.fn = fn

    def set(self, data=None):
        self.fn(data)
        super().set(data)


class RxModel:
    """Oracle for one receiver (sink or monitor)."""

    def __init__(self, w, name, props):
        self.w = w
        self.name = name
        self.props = props
        self.frames = []       # (beats, t_first, t_last) completed on the wires
        self.pos = 0           # next frame to be popped
        self.bytes_out = []
        self.nbytes_expected = None
        self.rq = []
        self.comp = None
        self.ww = None

    def attach(self, comp):
        self.comp = comp
        self.ww = WaitWatch(self.w.ctx, comp, self.name, ["C05"], "ns")

    def wire_frame(self, beats, t0, t1):
        self.frames.append((beats, t0, t1))
        self.ww.arrive()

    def occupancy(self):
        """Checked when a time step is over."""
        n = len(self.frames) - self.pos
        c = self.comp
        b = sum(len(f[0]) for f in self.frames[self.pos:]) * self.w.cfg["lanes"] if n else 0
        if (c.count(), c.queue_occupancy_frames, c.queue_occupancy_bytes, c.empty()) != (n, n, b, n == 0):
            self.w.ctx.fail("occupancy", ["C14"] if self.name == "sink" else ["C14", "C19"], "%s reports %d queued, %d frames, %d bytes%s, but should hold %d frames, %d bytes" % (
                self.name, c.count(), c.queue_occupancy_frames, c.queue_occupancy_bytes, " (empty)" if c.empty() else "", n, b))

    def got_frame(self, f, compact):
        ctx = self.w.ctx
        if self.pos >= len(self.frames):
            ctx.fail("frame-invented", self.props, "%s returned a frame that was not completed on the bus: %r" % (self.name, rx_view(f)))
            return
        beats, t0, t1 = self.frames[self.pos]
        self.pos += 1
        exp = ref_rx(self.w.cfg, self.w.sigs, beats, compact)
        got = rx_view(f)
        if got != exp:
            ctx.fail("frame-mismatch", self.props, "%s frame %d (compact=%s): got %r expected %r" % (self.name, self.pos - 1, compact, got, exp))
            return
        if isinstance(f.tdata, bytearray) != (self.w.cfg["bs"] == 8) or not isinstance(f.tdata, (bytearray, list)):
            ctx.fail("frame-type", self.props, "%s frame %d: tdata is a %s with %d-bit bytes" % (self.name, self.pos - 1, type(f.tdata).__name__, self.w.cfg["bs"]))
            return
        if self.w.cfg["bs"] <= 8 and bytes(f) != bytes(exp["tdata"]):
            ctx.fail("frame-bytes", ["C04"], "bytes(%r) is %r" % (f, bytes(f)))
            return
        if (f.sim_time_start, f.sim_time_end) != (t0, t1):
            ctx.fail("frame-times", self.props, "%s frame %d: times (%r, %r) expected (%r, %r)" % (
                self.name, self.pos - 1, f.sim_time_start, f.sim_time_end, t0, t1))

        self.compare(f, exp)

    def compare(self, f, exp):
        """Comparing the frame with expected and with deviating ones, as a scoreboard would."""
        ctx = self.w.ctx
        rng = ctx.rng("cmp%s%d" % (self.name, self.pos))
        if rng.random() > 0.25:
            return
        n = len(exp["tdata"])
        ctx.count("ops.frames_compared")

        def frame(**kw):
            d = dict(exp)
            d.update(kw)
            if f.tdata is not None and isinstance(f.tdata, bytearray):
                d["tdata"] = bytearray(d["tdata"])
            return AxiStreamFrame(**{k: list(v) if isinstance(v, list) else v for k, v in d.items()})

        def check(g, want, what):
            for a, b in ((f, g), (g, f)):
                if (a == b) != want or (a != b) == want:
                    ctx.fail("frame-compare", ["C04"], "%r compared with %r (%s): %s" % (f, g, what, not want))
                    return
            if len(g) != len(g.tdata) or list(g) != list(g.tdata):
                ctx.fail("frame-len", ["C04"], "%r: len() is %d, iteration gives %r" % (g, len(g), list(g)))
        check(frame(), True, "same contents")
        copy = AxiStreamFrame(f)
        check(copy, True, "a copy")
        if (copy.sim_time_start, copy.sim_time_end, type(copy.tdata)) != (f.sim_time_start, f.sim_time_end, type(f.tdata)):
            ctx.fail("frame-copy", ["C04"], "a copy of %r is %r" % (f, copy))
        check(frame(tkeep=None, tid=None, tdest=None, tuser=None), True, "data only")
        side = [k for k in ("tid", "tdest", "tuser") if exp[k] is not None and (not isinstance(exp[k], list) or len(exp[k]) == n)]
        full = {k: exp[k] if isinstance(exp[k], list) else [exp[k]] * n for k in side}
        check(frame(**full), True, "one sideband value per byte")
        check(frame(tdata=exp["tdata"] + [rng.getrandbits(8)], tkeep=None, tid=None, tdest=None, tuser=None), False, "one byte more")
        if n:
            i = rng.randrange(n)
            d = list(exp["tdata"])
            d[i] ^= 1
            check(frame(tdata=d), False, "byte %d differs" % i)
            check(frame(tdata=exp["tdata"][:-1], tkeep=None, tid=None, tdest=None, tuser=None), False, "one byte less")
            if exp["tkeep"]:
                k = list(exp["tkeep"])
                k[i] ^= 1
                check(frame(tkeep=k), False, "enable %d differs" % i)
            for s in side:
                v = list(full[s])
                v[i] += 1
                check(frame(**{s: v}), False, "%s %d differs" % (s, i))
                if not isinstance(exp[s], list):
                    check(frame(**{s: exp[s] + 1}), False, "%s differs" % s)
        if copy.tdata:
            copy.tdata[0] ^= 1
            for s in ("tkeep", "tid", "tdest", "tuser"):
                if isinstance(getattr(copy, s), list) and getattr(copy, s):
                    getattr(copy, s)[0] ^= 1
            if rx_view(f) != exp:
                ctx.fail("frame-copy", ["C04"], "changing a copy changed the frame: %r" % f)

    def got_bytes(self, data, count, queued_after, saw=False):
        """read()/read_nowait(): everything queued moves to the byte queue, then `count` bytes leave it."""
        ctx = self.w.ctx
        if queued_after != 0:
            ctx.fail("read-left", self.props, "%s: %d frames still queued after a read" % (self.name, queued_after))
            return
        need = len(data)
        edge = self.w.edge_now()
        while self.pos < len(self.frames):
            beats, t0, t1 = self.frames[self.pos]
            if edge and t1 == ctx.sim.time and not saw and len(self.rq) >= need:
                break       # completing right now: the receiver had not seen it yet
            self.rq.extend(ref_rx(self.w.cfg, self.w.sigs, beats, True)["tdata"])
            self.pos += 1
        exp = self.rq[:need]
        if list(data) != exp:
            ctx.fail("bytes-mismatch", self.props, "%s read returned %r, expected %r" % (self.name, list(data), exp))
            return
        if count >= 0 and (need > count or (need < count and need < len(self.rq))):
            # bytes of a frame completing in this very time step may or may not be included
            if not self.w.edge_now():
                ctx.fail("read-count", self.props, "%s read(%d) returned %d bytes with %d available" % (self.name, count, need, len(self.rq)))
                return
        if count < 0 and need < len(self.rq) and not self.w.edge_now():
            ctx.fail("read-count", self.props, "%s read(-1) returned %d bytes with %d available" % (self.name, need, len(self.rq)))
            return
        del self.rq[:need]


class World:
    pass


def build(ctx):
    return _main(ctx)


async def _main(ctx):
    scn = ctx.scn
    cfg = scn["cfg"]
    w = World()
    w.ctx = ctx
    w.cfg = cfg
    lanes, bs = cfg["lanes"], cfg["bs"]
    mode = cfg["mode"]
    pre = cfg["prefix"] + "_" if cfg["prefix"] else ""
    sigs = {"tdata": ctx.sig(pre + "tdata", lanes * bs), "tvalid": ctx.sig(pre + "tvalid" if cfg.get("valid", True) else "always", 1)}
    if cfg["ready"]:
        sigs["tready"] = ctx.sig(pre + "tready", 1)
    if cfg["last"]:
        sigs["tlast"] = ctx.sig(pre + "tlast", 1)
    if cfg["spec"] == "keep":
        sigs["tkeep"] = ctx.sig(pre + "tkeep", lanes)
    for s, k in (("tid", "id"), ("tdest", "dest"), ("tuser", "user")):
        if cfg[k]:
            sigs[s] = ctx.sig(pre + s, cfg[k])
    w.sigs = sigs
    rst = Rst(ctx, scn["rst"])
    w.rst = rst
    payload = {n: s for n, s in sigs.items() if n not in ("tvalid", "tready")}
    lib_src = mode in ("ll", "ln")
    lib_snk = mode in ("ll", "nl")
    mon = ChanMon(ctx, "axis", sigs["tvalid"], sigs.get("tready"), payload, rst, lib_src=lib_src, lib_snk=lib_snk and cfg["ready"])

    kw = {}
    if cfg["spec"] == "size":
        kw["byte_size"] = bs
    elif cfg["spec"] == "lanes":
        kw["byte_lanes"] = lanes
    elif cfg["spec"] == "default":
        pass
    rkw = rst.kwargs()

    def bus():
        return AxiStreamBus.from_prefix(ctx.top, cfg["prefix"]) if cfg["prefix"] else AxiStreamBus.from_entity(ctx.top)

    # ----- state of the reference
    frames = []              # accepted by the source, in order
    cur = []                 # beats of the frame being transferred
    cur_t0 = [0]
    edge_time = [-1]
    w.edge_now = lambda: ctx.sim.time == edge_time[0]
    wire_frames = [0]
    rx_end = [-1]
    rxs = []
    outstanding = [0]
    pending_txc = []
    ready_sample = [None]
    nxt = [0]                # index of the oldest frame that is neither sent nor discarded

    def advance():
        while nxt[0] < len(frames) and frames[nxt[0]].state != "queued":
            nxt[0] += 1

    def on_beat(d):
        ctx.count("bus.beats")
        if not cur:
            cur_t0[0] = ctx.sim.time
        cur.append(d)
        if lib_src:
            advance()
            if nxt[0] >= len(frames):
                ctx.fail("beat-invented", ["C04"], "beat %r on the bus but no frame is outstanding" % (d,))
                return
            f = frames[nxt[0]]
            if f.done_beats >= len(f.beats):
                ctx.fail("beat-extra", ["C04"], "frame %d: beat %r beyond its end" % (f.idx, d))
                return
            exp = f.beats[f.done_beats]
            if d != exp:
                ctx.fail("beat-mismatch", ["C04"], "frame %d beat %d/%d: %r expected %r" % (f.idx, f.done_beats, len(f.beats), d, exp))
                return
            if not f.done_beats:
                f.beat_t0 = ctx.sim.time
            f.done_beats += 1
            if f.done_beats == len(f.beats):
                f.state = "sent"
                f.acc_cycle = ctx.cycle
                outstanding[0] -= 1
                advance()
                w.sent_check.append(f)
        if d.get("tlast", 1):
            wire_frames[0] += 1
            rx_end[0] = ctx.sim.time
            for r in rxs:
                r.wire_frame(list(cur), cur_t0[0], ctx.sim.time)
            cur.clear()
    mon.cb.append(on_beat)
    w.sent_check = []

    # ----- components
    src = snk = None
    mons = []
    if lib_src:
        src = AxiStreamSource(bus(), ctx.hclk, **rkw, **kw)
        if scn["src"]["lim_f"] > 0:
            src.queue_occupancy_limit_frames = scn["src"]["lim_f"]
        if scn["src"]["lim_b"] > 0:
            src.queue_occupancy_limit_bytes = scn["src"]["lim_b"]
        ctx.count("real.AxiStreamSource")
    if lib_snk:
        snk = AxiStreamSink(bus(), ctx.hclk, **rkw, **kw)
        if scn["snk"]["lim_f"] > 0:
            snk.queue_occupancy_limit_frames = scn["snk"]["lim_f"]
        if scn["snk"]["lim_b"] > 0:
            snk.queue_occupancy_limit_bytes = scn["snk"]["lim_b"]
        snk_rx = RxModel(w, "sink", ["C04"])
        snk_rx.attach(snk)
        rxs.append(snk_rx)
        ctx.count("real.AxiStreamSink")
    for i in range(cfg["mon"]):
        m = AxiStreamMonitor(bus(), ctx.hclk, **rkw, **kw)
        r = RxModel(w, "monitor%d" % i, ["C19", "C04"])
        r.attach(m)
        rxs.append(r)
        mons.append((m, r))
        ctx.count("real.AxiStreamMonitor")

    rst.attach([src, snk] + [m for m, _ in mons])
    nat_src = None
    if not lib_src:
        if not cfg.get("valid", True):
            frng = ctx.rng("filler")
            nat_src = ContinuousSource(ctx, "natsrc", sigs["tvalid"], sigs.get("tready"), payload, rst, scn["natpat"],
                                       lambda: {n: frng.getrandbits(s.width) if n != "tlast" else 0 for n, s in payload.items()})
            ctx.count("cover.no_tvalid")
    if nat_src is None and not lib_src:
        nat_src = NatSource(ctx, "natsrc", sigs["tvalid"], sigs.get("tready"), payload, rst, scn["natpat"], scn["x_idle"])
    nat_done = [0]
    if not lib_snk:
        NatSink(ctx, "natsnk", sigs["tvalid"], sigs.get("tready"), payload, rst, lambda d: None, scn["natpat"])

    # ----- reset behaviour of the reference
    src_idle_since = [0]

    def on_assert():
        nonlocal_rx_partial()
        if lib_src:
            q = src.count()
            live = [f for f in frames if f.state == "queued"]
            if len(live) - q > 1 or q > len(live):
                ctx.fail("queue-count", ["C04", "C11"], "at reset: %d frames outstanding but %d queued" % (len(live), q))
                return
            for f in live[:len(live) - q]:
                f.state = "discarded"
                f.discard_why = "reset"
                outstanding[0] -= 1
                ctx.count("fault.frame_lost_in_reset")
            advance()
            if live:
                ctx.count("cover.reset_with_frames_outstanding")
        cur.clear()

    def nonlocal_rx_partial():
        if cur:
            ctx.count("cover.reset_mid_frame")
    rst.on_assert.append(on_assert)

    # ----- transmit completion
    order = [0]
    last_end = [0]

    def txc_fire(f, arg):
        f.txc_n += 1
        f.txc_cycle = ctx.cycle
        if f.txc_n > 1:
            ctx.fail("txc-twice", ["C05"], "completion of frame %d fired %d times" % (f.idx, f.txc_n))
            return
        if not isinstance(arg, AxiStreamFrame):
            ctx.fail("txc-arg", ["C05"], "completion of frame %d got %r" % (f.idx, arg))
            return
        f.arg = arg
        f.t_txc = ctx.sim.time
        for g in frames[order[0]:f.idx] if f.state != "discarded" else ():
            if g.state != "discarded" and g.txc != "none" and not g.txc_n:
                ctx.fail("txc-order", ["C05"], "completion of frame %d fired before that of frame %d" % (f.idx, g.idx))
                return
        while order[0] < len(frames) and (frames[order[0]].txc == "none" or frames[order[0]].txc_n):
            order[0] += 1
        pending_txc.append(f)

    # ----- per edge checks
    pause_ops = {"src": 0, "snk": 0}
    hist = {"src_p": 0, "snk_p": 0, "src_u": 0, "snk_u": 0}
    def oldest():
        for f in frames:
            if f.state == "queued":
                return f
        return None
    last = {"cycle": 0, "out": None, "src_ops": 0, "snk_ops": 0, "v": 0}
    pre_vr = [0, 0]

    def on_edge():
        edge_time[0] = ctx.sim.time
        pre_vr[0] = sigs["tvalid"].ival
        pre_vr[1] = sigs["tready"].ival if cfg["ready"] else 1
    ctx.clk.on(1, on_edge)
    rst_run = [0]
    waiters = []           # [call_cycle, done]

    def over(c):
        lf, lb = c.queue_occupancy_limit_frames, c.queue_occupancy_limit_bytes
        return (lf > 0 and c.queue_occupancy_frames > lf) or (lb > 0 and c.queue_occupancy_bytes > lb)

    def settle():
        # completion notifications
        if pending_txc:
            pend = list(pending_txc)
            pending_txc.clear()
            for f in pend:
                a, f.arg = f.arg, None
                if list(a.tdata) != f.data:
                    ctx.fail("txc-arg", ["C05"], "completion of frame %d got %r, not the frame sent" % (f.idx, a))
                    return
                t0, t1 = a.sim_time_start, a.sim_time_end
                if f.state == "discarded" and t1 is None:
                    continue
                if f.state == "discarded" or rst.active:
                    if t1 is not None and (t1 != f.t_txc or f.done_beats < len(f.beats) - 1):
                        ctx.fail("txc-times", ["C05"], "discarded frame %d has end time %r" % (f.idx, t1))
                        return
                    continue
                if t1 != f.t_txc or t0 is None or not max(f.t_send, last_end[0]) <= t0 <= t1 or (len(f.beats) > 1 and f.beat_t0 is not None and t0 >= f.beat_t0):
                    ctx.fail("txc-times", ["C05"], "frame %d, sent at %d, first beat accepted at %r, completed at %d: reported times %r to %r (previous frame ended at %d)" % (
                        f.idx, f.t_send, f.beat_t0, f.t_txc, t0, t1, last_end[0]))
                    return
                last_end[0] = t1
                if f.state == "sent":
                    continue
                if f.done_beats != len(f.beats) - 1 or sigs["tvalid"].ival != 1 or \
                        any(sigs[k].ival != v for k, v in f.beats[-1].items()):
                    ctx.fail("txc-early", ["C05"], "completion of frame %d fired with %d of %d beats transferred and the final beat not on the bus" % (
                        f.idx, f.done_beats, len(f.beats)))
                    return
        if w.sent_check:
            for f in w.sent_check:
                if f.txc != "none" and not f.txc_n:
                    ctx.fail("txc-missing", ["C05"], "frame %d fully transferred but its completion has not fired" % f.idx)
                    return
            w.sent_check.clear()
        if lib_src:
            exp_idle = outstanding[0] == 0
            if src.idle() != exp_idle:
                ctx.fail("idle", ["C05"], "source idle() is %s with %d frames outstanding" % (src.idle(), outstanding[0]))
                return
            if exp_idle:
                for wt in waiters:
                    if not wt[1]:
                        ctx.fail("wait-late", ["C05"], "wait() started in cycle %d still blocked although the source is idle" % wt[0])
                        return
        if ctx.cycle == last["cycle"] or ctx.clk.ival != 1:
            return
        last["cycle"] = ctx.cycle
        for r in rxs:
            r.occupancy()
            exp = not cur
            if r.comp.idle() != exp and not (exp and rx_end[0] == ctx.sim.time):
                ctx.fail("rx-idle", ["C05"], "%s idle() is %s with %d beats of an incomplete frame received" % (r.name, r.comp.idle(), len(cur)))
                return
        if rst.active:
            rst_run[0] = 0
            hist.update(src_p=0, snk_p=0, src_u=0, snk_u=0)
        else:
            rst_run[0] += 1
        if lib_src:
            q = src.count()
            advance()
            live = [f.nbytes for f in frames[nxt[0]:] if f.state == "queued"]
            held = live[len(live) - q:] if q else []
            if not len(live) - 1 <= q <= len(live) or (src.queue_occupancy_frames, src.queue_occupancy_bytes, src.empty()) != (q, sum(held), q == 0):
                ctx.fail("occupancy", ["C14"], "source reports %d queued, %d frames, %d bytes%s with %d frames outstanding (%r bytes)" % (
                    q, src.queue_occupancy_frames, src.queue_occupancy_bytes, " (empty)" if src.empty() else "", len(live), live))
                return
            if src.full() != over(src):
                ctx.fail("full", ["C14"], "source full() is %s with %d frames (limit %d) and %d bytes (limit %d)" % (
                    src.full(), q, src.queue_occupancy_limit_frames, sum(held), src.queue_occupancy_limit_bytes))
                return
            # pause: no new beat while paused since before the edge
            if not rst.active and rst_run[0] > 1:
                if pause_ops["src"] == last["src_ops"] and src.pause:
                    hist["src_p"] += 1
                    hist["src_u"] = 0
                    if hist["src_p"] >= 2 and sigs["tvalid"].ival == 1 and not (pre_vr[0] == 1 and pre_vr[1] == 0):
                        ctx.fail("paused-beat", ["C14"], "source started a beat while paused")
                        return
                elif pause_ops["src"] == last["src_ops"]:
                    hist["src_u"] += 1
                    hist["src_p"] = 0
                    if hist["src_u"] > 3 and outstanding[0] > 0 and rst_run[0] > 4:
                        if sigs["tvalid"].ival != 1 and last["v"] == 0 and last["out"] is not None and last["out"] is oldest():
                            ctx.fail("no-resume", ["C14", "C12"], "source not paused, %d frames outstanding, but it drives nothing" % outstanding[0])
                            return
                else:
                    hist["src_p"] = hist["src_u"] = 0
                last["v"] = sigs["tvalid"].ival
                last["out"] = oldest()
            last["src_ops"] = pause_ops["src"]
        if lib_snk:
            lf, lb = snk.queue_occupancy_limit_frames, snk.queue_occupancy_limit_bytes
            grace = snk.count() <= last.get("over", 0)
            if snk.full() != over(snk):
                ctx.fail("full", ["C14"], "sink full() is %s with %d frames (limit %d) and %d bytes (limit %d)" % (
                    snk.full(), snk.count(), lf, snk.queue_occupancy_bytes, lb))
                return
            if lf > 0 and snk.count() > lf + 1 and cfg["ready"] and not grace:
                ctx.fail("over-limit", ["C14"], "sink holds %d frames with a limit of %d" % (snk.count(), lf))
                return
            if lb > 0 and cfg["ready"] and cfg.get("valid", True) and snk.queue_occupancy_bytes > lb + maxf[0] and not grace:
                ctx.fail("over-limit", ["C14"], "sink holds %d bytes with a limit of %d" % (snk.queue_occupancy_bytes, lb))
                return
            if cfg["ready"] and not rst.active and rst_run[0] > 1:
                full = snk.full()
                if pause_ops["snk"] == last["snk_ops"] and snk.pause:
                    hist["snk_p"] += 1
                    hist["snk_u"] = 0
                    if hist["snk_p"] >= 3 and sigs["tready"].ival != 0:
                        ctx.fail("paused-ready", ["C14"], "sink still ready %d cycles after being paused" % hist["snk_p"])
                        return
                elif last.get("lim_pend") == (len(snk_rx.frames), snk_rx.pos):
                    # a changed limit takes effect with the next frame received or read
                    hist["snk_p"] = hist["snk_u"] = 0
                elif pause_ops["snk"] == last["snk_ops"] and not full:
                    hist["snk_u"] += 1
                    hist["snk_p"] = 0
                    if hist["snk_u"] > 3 and rst_run[0] > 4 and sigs["tvalid"].ival == 1 and pre_vr == [1, 0] and sigs["tready"].ival != 1:
                        ctx.fail("no-resume", ["C14", "C12"], "sink neither paused nor full but not ready")
                        return
                else:
                    hist["snk_p"] = hist["snk_u"] = 0
            last["snk_ops"] = pause_ops["snk"]
        if lib_snk:
            ctx.states.add((min(len(cur), 3), min(outstanding[0], 4), pre_vr[0], pre_vr[1], min(snk.count(), 3), bool(rst.active), bool(snk.pause)))
        else:
            ctx.states.add((min(len(cur), 3), min(outstanding[0], 4), pre_vr[0], pre_vr[1], bool(rst.active), bool(src.pause)))
    ctx.sim.settle_hooks.append(settle)
    maxf = [max([(op.get("n", 0) + lanes - 1) // lanes * lanes for ops in scn["clients"] for op in ops] + [f["beats"] * lanes for f in scn.get("nat", [])] + [lanes])]
    if not cfg["last"]:
        maxf[0] = lanes

    def notify_gen(pat, key):
        for v in pat.gen():
            pause_ops[key] += 1
            yield v
        pause_ops[key] += 1

    gw = GenWatch(ctx)

    def set_pgen(comp, patcfg, key, site):
        pause_ops[key] += 1
        if patcfg["k"] == "none":
            gw.clear(comp)
            gw.manual(comp, False)
        else:
            p = Pat(ctx, patcfg, site)
            if ctx.cycle >= p.until:
                gw.clear(comp)
                gw.manual(comp, False)
            else:
                gw.set(comp, notify_gen(p, key), key)

    for comp, key in ((src, "src"), (snk, "snk")):
        if comp is not None:
            gw.watch(comp, key)
            if scn[key]["pat"]["k"] != "none":
                set_pgen(comp, scn[key]["pat"], key, key + "pat")

    # ----- clients
    def make(op, ci, oi):
        n = op["n"]
        data = data_ints(op["ds"], n, bs)
        keep = None
        kk = op.get("keep", "none")
        r = ctx.rng("k%s" % op["ds"])
        if kk == "rand":
            keep = [int(r.random() < 0.6) for _ in range(n)]
        elif kk == "short":
            keep = [int(r.random() < 0.6) for _ in range(r.randint(1, n))]
        elif kk == "zeros":
            keep = [0] * n
        if keep is not None and cfg["rd"] != "frames":
            keep += [keep[-1]] * (n - len(keep))
            keep[::lanes] = [1] * len(keep[::lanes])    # a frame without bytes cannot be told apart in mixed reading
        side = {}
        for s, k in (("tid", "id"), ("tdest", "dest"), ("tuser", "user")):
            wd = cfg[k] or 4
            m = op.get(s)
            v = None
            if m == "int":
                v = r.getrandbits(wd)
            elif m == "list":
                v = [r.getrandbits(wd) for _ in range(n)]
            elif m == "short":
                v = [r.getrandbits(wd) for _ in range(r.randint(1, n))]
            side[s] = v
        return (bytearray(data) if bs == 8 and r.random() < 0.8 else data), keep, side

    async def ev_watch(f, ev):
        await ev.wait()
        f_waited.add(f.idx)
    f_waited = set()

    async def client(ci, ops):
        for oi, op in enumerate(ops):
            await ctx.delay(op)
            o = op["op"]
            if o == "wait":
                await do_wait()
                continue
            data, keep, side = make(op, ci, oi)
            txc = op["txc"]
            if o in ("write", "write_nowait"):
                keep, txc, side = None, "none", {"tid": None, "tdest": None, "tuser": None}
                arg = data
            else:
                arg = AxiStreamFrame(data, tkeep=list(keep) if keep is not None else None, **{k: (list(v) if isinstance(v, list) else v) for k, v in side.items()})
            beats = frame_beats(cfg, sigs, list(data), keep, side["tid"], side["tdest"], side["tuser"])
            f = Frame(None, beats, txc, (ci, oi), len(data))
            f.t_send = ctx.sim.time
            f.data = list(data)
            if isinstance(arg, AxiStreamFrame) and op["ds"] & 48 == 0:
                arg.sim_time_start, arg.sim_time_end = 1, 2      # as if received earlier
            ev = None
            cb = None
            if txc == "fn":
                cb = lambda x, f=f: txc_fire(f, x)
            elif txc == "ev":
                cb = ev = CountEvent(lambda x, f=f: txc_fire(f, x))
            if cb is not None:
                if op["ds"] & 3 == 0:
                    arg = AxiStreamFrame(arg, tx_complete=cb)
                elif op["ds"] & 3 == 1:
                    arg = AxiStreamFrame(arg.tdata, arg.tkeep, arg.tid, arg.tdest, arg.tuser, cb)
                else:
                    arg.tx_complete = cb
                if op["ds"] & 12 == 0:
                    arg = AxiStreamFrame(arg)
            if o in ("send_nowait", "write_nowait"):
                was_full = src.full()
                try:
                    getattr(src, o)(arg)
                    if was_full:
                        ctx.fail("limit-ignored", ["C14"], "%s accepted although full() was True" % o)
                        return
                except QueueFull:
                    ctx.count("cover.queue_full")
                    if not was_full:
                        ctx.fail("limit-wrong", ["C14"], "%s refused although full() was False" % o)
                        return
                    continue
            else:
                if src.full():
                    ctx.count("cover.send_blocked")
                await getattr(src, o)(arg)
            lf, lb = src.queue_occupancy_limit_frames, src.queue_occupancy_limit_bytes
            if (lf > 0 and src.queue_occupancy_frames - 1 > lf) or (lb > 0 and src.queue_occupancy_bytes - f.nbytes > lb):
                ctx.fail("limit-ignored", ["C14"], "%s accepted with %d frames, %d bytes queued and limits of %d, %d" % (
                    o, src.queue_occupancy_frames - 1, src.queue_occupancy_bytes - f.nbytes, lf, lb))
                return
            f.idx = len(frames)
            frames.append(f)
            outstanding[0] += 1
            ctx.count("ops.frames_sent")
            if op.get("mut"):
                # the caller reuses its buffer right after handing the frame over
                if isinstance(arg, AxiStreamFrame):
                    arg.tdata[:] = [0] * len(arg.tdata)
                    arg.tkeep = [0]
                    arg.tid = 0
                else:
                    arg[:] = [0] * len(arg)
            if ev is not None:
                cocotb.start_soon(ev_watch(f, ev))

    async def do_wait():
        need = [f for f in frames if f.state == "queued"]
        wt = [ctx.cycle, False]
        waiters.append(wt)
        await src.wait()
        wt[1] = True
        ctx.count("ops.wait")
        for f in need:
            if f.state == "queued":
                # acceptance and notification happen at the same edge; the reference may not have
                # processed that edge yet, so confirm once the time step is over
                late.append(f)
    late = []

    def late_check():
        for f in late:
            if f.state == "queued":
                ctx.fail("wait-early", ["C05"], "wait() returned while frame %d (accepted earlier) has %d of %d beats transferred" % (
                    f.idx, f.done_beats, len(f.beats)))
                return
        late.clear()
    ctx.sim.settle_hooks.append(late_check)

    async def control(comp, ops, key):
        for i, op in enumerate(ops):
            await ctx.delay(op)
            o = op["op"]
            if o == "pause":
                pause_ops[key] += 1
                gw.manual(comp, op["v"] and ctx.cycle < scn["stall_until"])
                ctx.count("fault.pause_toggle")
            elif o == "pgen":
                set_pgen(comp, op["pat"], key, "%spg%d" % (key, i))
                ctx.count("fault.pause_generator_replaced")
            elif o == "clear":
                ctx.count("fault.clear")
                if key == "src":
                    q = src.count()
                    live = [f for f in frames if f.state == "queued"]
                    if q > len(live) or len(live) - q > (1 if not w.edge_now() else 2):
                        ctx.fail("queue-count", ["C04"], "%d frames outstanding but %d queued" % (len(live), q))
                        return
                    gone = live[len(live) - q:]
                    for f in gone:
                        f.state = "discarded"
                        f.discard_why = "clear"
                        outstanding[0] -= 1
                    comp.clear()
                    advance()
                    for f in gone:
                        if f.txc != "none" and f.txc_n != 1:
                            ctx.fail("txc-clear", ["C05"], "clear() fired the completion of discarded frame %d %d times" % (f.idx, f.txc_n))
                            return
                else:
                    q = snk.count()
                    comp.clear()
                    snk_rx.pos += q
                if comp.count() != 0 or not comp.empty():
                    ctx.fail("clear", ["C04", "C14"], "queue not empty after clear()")
                    return
            elif o == "wait":
                await do_wait()
            elif o == "limit":
                comp.queue_occupancy_limit_frames = op["v"]
                last["over"] = snk.count() + 2
                last["lim_pend"] = len(snk_rx.frames), snk_rx.pos
                ctx.count("fault.limit_change")
        pause_ops[key] += 1
        await until_quiet()
        gw.manual(comp, False)
        pause_ops[key] += 1

    async def until_quiet():
        while ctx.cycle < scn["stall_until"]:
            await ctx.cycles(1)

    async def reader(ci, ops):
        for op in ops:
            await ctx.delay(op)
            o = op["op"]
            if o == "wait":
                await snk_rx.ww.wait(op["to"], op["u"])
                continue
            if o == "recv":
                blocked[0] += 1
                f = await snk.recv(op["compact"]) if not op["compact"] else await snk.recv()
                blocked[0] -= 1
                snk_rx.got_frame(f, op["compact"])
            elif o == "recv_nowait":
                emp = snk.empty()
                try:
                    f = snk.recv_nowait(op["compact"])
                except QueueEmpty:
                    if not emp:
                        ctx.fail("recv", ["C04"], "recv_nowait raised QueueEmpty on a non-empty sink")
                    continue
                snk_rx.got_frame(f, op["compact"])
            elif o == "read":
                await off_edge()
                blocked[0] += 1
                n = op["n"] or 1
                t0 = ctx.sim.time
                data = await snk.read(n)
                blocked[0] -= 1
                # a read that had to wait is resumed by the arrival of the newest frame
                snk_rx.got_bytes(data, n, snk.count(), t0 != ctx.sim.time)
            elif o == "read_nowait":
                await off_edge()
                data = snk.read_nowait(op["n"])
                snk_rx.got_bytes(data, op["n"], snk.count())
            ctx.count("ops.reads")
    blocked = [0]

    async def off_edge():
        # which frames a byte read sees is only defined away from the edge completing one
        while w.edge_now():
            await Timer(3, "step")

    async def drainer():
        """Keeps the sink from staying full once the readers have finished."""
        while True:
            await ctx.cycles(1)
            if ctx.cycle >= scn["stall_until"] or (rx_done[0] and ctx.cycle % 3 == 0):
                if cfg["rd"] == "bytes":
                    await off_edge()
                    n0 = snk.count()
                    if n0 or snk_rx.rq:
                        data = snk.read_nowait()
                        snk_rx.got_bytes(data, -1, snk.count())
                else:
                    while not snk.empty():
                        snk_rx.got_frame(snk.recv_nowait(compact=True), True)
    rx_done = [False]

    def mon_take(m, r, k):
        if k & 2:
            return r.got_frame(m.recv_nowait(), True)
        r.got_frame(m.recv_nowait(compact=bool(k & 1)), bool(k & 1))

    async def mon_reader(m, r, c):
        rng = ctx.rng(r.name)
        k = c["k"]
        while True:
            if k == "recv":
                if c["rd"] == "bytes":
                    await off_edge()
                    t0 = ctx.sim.time
                    n = rng.choice([-1, rng.randint(1, 9)])
                    data = await (m.read() if n < 0 else m.read(n))
                    r.got_bytes(data, n, m.count(), t0 != ctx.sim.time)
                else:
                    cp = rng.random() < 0.5
                    f = await (m.recv() if cp and rng.random() < 0.5 else m.recv(compact=cp))
                    r.got_frame(f, cp)
                continue
            if k == "wait":
                await r.ww.wait(c["to"], c["u"])
            else:
                await ctx.cycles(c["every"])
            if c["rd"] == "bytes":
                await off_edge()
                n = rng.choice([-1, rng.randint(0, 9)])
                r.got_bytes(m.read_nowait() if n < 0 else m.read_nowait(n), n, m.count())
            else:
                while not m.empty():
                    mon_take(m, r, rng.randrange(4))
            if k == "wait":        # (a wait that keeps timing out after 1 ps would poll a million times)
                await ctx.cycles(1)

    async def nat_feed():
        for f in scn["nat"]:
            if f.get("d"):
                await ctx.cycles(f["d"])
            while rst.active:
                await ctx.cycles(1)
            r = ctx.rng("n%s" % f["ds"])
            fr = []
            for b in range(f["beats"]):
                d = {n: r.getrandbits(s.width) for n, s in payload.items()}
                if "tkeep" in d:
                    kk = f["keep"]
                    if kk == "full" or (kk == "tail" and b < f["beats"] - 1):
                        d["tkeep"] = (1 << lanes) - 1
                    elif kk == "tail":
                        d["tkeep"] = (1 << r.randint(1, lanes)) - 1
                    elif kk == "zeros":
                        d["tkeep"] = 0
                    if cfg["rd"] != "frames":
                        d["tkeep"] |= 1
                if f["side"] == "const" and b:
                    for s in ("tid", "tdest", "tuser"):
                        if s in d:
                            d[s] = fr[0][s]
                if "tlast" in d:
                    d["tlast"] = int(b == f["beats"] - 1)
                fr.append(d)
            nat_src.q.extend(fr)
            while nat_src.q or nat_src.busy:
                await ctx.cycles(1)

    tasks = []
    if lib_src:
        for ci, ops in enumerate(scn["clients"]):
            tasks.append(cocotb.start_soon(client(ci, ops)))
        tasks.append(cocotb.start_soon(control(src, scn["ctl"], "src")))
    else:
        tasks.append(cocotb.start_soon(nat_feed()))
    rtasks = []
    if lib_snk:
        tasks.append(cocotb.start_soon(control(snk, scn["sctl"], "snk")))
        for ci, ops in enumerate(scn["rx"]):
            rtasks.append(cocotb.start_soon(reader(ci, ops)))
        cocotb.start_soon(drainer())
    for i, (m, r) in enumerate(mons):
        rtasks.append(cocotb.start_soon(mon_reader(m, r, scn["mon_rd"][i])))

    async def unpause():
        await until_quiet()
        for comp, key in ((src, "src"), (snk, "snk")):
            if comp is not None:
                pause_ops[key] += 1
                gw.manual(comp, False)
    tasks.append(cocotb.start_soon(unpause()))
    phase = ["clients"]

    def timeout():
        ctx.fail("stuck", ["*"], "not finished after %d cycles (phase %s, %d frames outstanding, sink holds %s)" % (
            ctx.cycle, phase[0], outstanding[0], snk.count() if snk else "-"))
    ctx.timeout_fn = timeout

    last_pulse = max([p["at"] + p["len"] + 3 for p in scn["rst"]["pulses"]] or [0])
    for i, t in enumerate(tasks):
        phase[0] = "task %d" % i
        await t
    phase[0] = "drain"
    while ctx.cycle < last_pulse or ctx.cycle < scn["stall_until"]:
        await ctx.cycles(1)
    rx_done[0] = True
    while outstanding[0] > 0 or (nat_src is not None and (nat_src.q or nat_src.busy)):
        await ctx.cycles(1)
    await ctx.cycles(6)
    for r in rxs:
        r.ww.final()
    for t in rtasks:
        t.kill()
    await ctx.cycles(4)
    # ----- everything must be accounted for
    if lib_snk:
        if cfg["rd"] == "bytes":
            data = snk.read_nowait()
            snk_rx.got_bytes(data, -1, snk.count())
        else:
            while not snk.empty():
                snk_rx.got_frame(snk.recv_nowait(), True)
        if snk_rx.pos != len(snk_rx.frames) or snk_rx.rq:
            ctx.fail("frames-lost", ["C04"], "%d frames completed on the bus, sink delivered %d" % (len(snk_rx.frames), snk_rx.pos))
            return
        if snk.queue_occupancy_frames or snk.queue_occupancy_bytes:
            ctx.fail("occupancy", ["C14"], "drained sink reports %d frames / %d bytes" % (snk.queue_occupancy_frames, snk.queue_occupancy_bytes))
            return
    for i, (m, r) in enumerate(mons):
        if scn["mon_rd"][i]["rd"] == "bytes":
            data = m.read_nowait()
            r.got_bytes(data, -1, m.count())
        while not m.empty():
            mon_take(m, r, i)
        if r.rq or r.pos != len(r.frames):
            ctx.fail("monitor-lost", ["C19", "C04"], "%d frames completed on the bus, %s delivered %d" % (len(r.frames), r.name, r.pos))
            return
    if lib_src:
        if src.queue_occupancy_frames or src.queue_occupancy_bytes or not src.empty():
            ctx.fail("occupancy", ["C14"], "drained source reports %d frames / %d bytes" % (src.queue_occupancy_frames, src.queue_occupancy_bytes))
            return
        for f in frames:
            if f.txc != "none" and f.txc_n != 1:
                ctx.fail("txc-missing", ["C05"], "completion of frame %d (%s) fired %d times" % (f.idx, f.state, f.txc_n))
                return
            if f.txc == "ev" and f.idx not in f_waited:
                ctx.fail("txc-missing", ["C05"], "waiter on the completion of frame %d (%s) never resumed" % (f.idx, f.state))
                return
            if f.state == "queued":
                ctx.fail("frame-lost", ["C04"], "frame %d never sent" % f.idx)
                return
